// ---- the definitions the assumed contracts are written with, made executable word by word: generated by vx from the
// text of contracts/prelude.rs (XS_LIST); only Seq itself is written here ----
#[allow(non_camel_case_types)] pub type int = i64;
#[allow(non_camel_case_types)] pub type nat = i64;
use std::cmp::Ordering;
#[derive(Debug)] pub struct Seq<T: 'static> { pub p: &'static [T] }
impl<T> Clone for Seq<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Seq<T> {}
impl<T: PartialEq> PartialEq for Seq<T> { fn eq(&self, o: &Self) -> bool { self.p == o.p } }
fn leak<T>(v: Vec<T>) -> Seq<T> { Seq { p: v.leak() } }
pub fn of(s: &str) -> Seq<char> { leak(s.chars().collect()) }
impl<T: Copy + PartialEq + 'static> Seq<T> {
    pub fn empty() -> Self { Seq { p: &[] } }
    pub fn from(v: Vec<T>) -> Self { leak(v) }
    pub fn len(self) -> i64 { self.p.len() as i64 }
    pub fn last(self) -> T { self.p[self.p.len() - 1] }
    pub fn drop_last(self) -> Self { Seq { p: &self.p[..self.p.len() - 1] } }
    pub fn take(self, n: i64) -> Self { Seq { p: &self.p[..n as usize] } }
    pub fn skip(self, n: i64) -> Self { Seq { p: &self.p[n as usize..] } }
    pub fn subrange(self, a: i64, b: i64) -> Self { Seq { p: &self.p[a as usize..b as usize] } }
    pub fn push(self, x: T) -> Self { let mut v = self.p.to_vec(); v.push(x); leak(v) }
    pub fn contains(self, x: T) -> bool { self.p.contains(&x) }
}
impl<T> std::ops::Index<i64> for Seq<T> { type Output = T; fn index(&self, i: i64) -> &T { &self.p[i as usize] } }
impl<T: Copy> std::ops::Add for Seq<T> { type Output = Self; fn add(self, o: Self) -> Self { let mut v = self.p.to_vec(); v.extend_from_slice(o.p); leak(v) } }
macro_rules! seq { ($($x:expr),* $(,)?) => { leak(vec![$($x),*]) } }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum CompV { Root, Cur, Up, Name(Seq<char>) }
