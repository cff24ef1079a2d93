//! Plain stand-ins for what the shared files use.
#![allow(dead_code)]
pub fn assume(_: bool) {}
pub fn check(c: bool, id: &str) {
    assert!(c, "{id}");
}
pub fn conc(v: u64) -> u64 {
    v
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a == b
}
