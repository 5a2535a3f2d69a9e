pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
pub fn json_text(_: &J) -> String { unimplemented!() }
pub fn json_parse(_: &str) -> Result<J, String> { unimplemented!() }
pub fn jsonc_parse(_: &str) -> Result<Option<J>, String> { unimplemented!() }
