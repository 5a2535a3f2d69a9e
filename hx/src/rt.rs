//! what the bodies of the assumed contracts need of the real dependencies when the extracted text is executed
use serde_json::Value;
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
fn of(v: Value) -> J {
    match v { Value::Null => J::Null, Value::Bool(b) => J::Bool(b), Value::Number(n) => J::Num(n.to_string()), Value::String(s) => J::Str(s), Value::Array(a) => J::Arr(a.into_iter().map(of).collect()), Value::Object(m) => J::Obj(m.into_iter().map(|(k, v)| (k, of(v))).collect()) }
}
fn to(v: &J) -> Value {
    match v { J::Null => Value::Null, J::Bool(b) => Value::Bool(*b), J::Num(n) => serde_json::from_str(n).unwrap(), J::Str(s) => Value::String(s.clone()), J::Arr(a) => Value::Array(a.iter().map(to).collect()), J::Obj(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), to(v))).collect()) }
}
pub fn json_text(v: &J) -> String { to(v).to_string() }
pub fn json_parse(s: &str) -> Result<J, String> { serde_json::from_str::<Value>(s).map(of).map_err(|e| e.to_string()) }
pub fn jsonc_parse(s: &str) -> Result<Option<J>, String> { jsonc_parser::parse_to_serde_value(s).map(|v| v.map(of)).map_err(|e| e.to_string()) }
pub fn report(n: u64, bad: &[String]) -> String { serde_json::json!({"comparisons": n, "differences": bad}).to_string() }
