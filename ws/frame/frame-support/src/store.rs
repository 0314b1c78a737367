//! The key-value store behind all storage items: encoded keys and encoded values, as in Substrate,
//! in a flat list. Transactions snapshot it.
use std::vec::Vec;

#[derive(Clone)]
pub struct Entry {
    pub id: u64,
    pub k1: Vec<u8>,
    pub k2: Vec<u8>,
    pub v: Vec<u8>,
}
static mut DB: Vec<Entry> = Vec::new();
static mut DEPTH: u32 = 0;

#[allow(static_mut_refs)]
pub fn db() -> &'static mut Vec<Entry> {
    unsafe { &mut DB }
}
pub fn depth() -> &'static mut u32 {
    #[allow(static_mut_refs)]
    unsafe {
        &mut DEPTH
    }
}
pub fn reset() {
    db().clear();
    *depth() = 0;
}
pub fn snapshot() -> Vec<Entry> {
    db().clone()
}
pub fn restore(s: Vec<Entry>) {
    *db() = s;
}
/// Equal as maps (the order of insertion does not matter).
pub fn same(a: &[Entry], b: &[Entry]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for x in a {
        let mut f = false;
        for y in b {
            if x.id == y.id && x.k1 == y.k1 && x.k2 == y.k2 {
                ok &= x.v == y.v;
                f = true;
                break;
            }
        }
        ok &= f;
    }
    ok
}
pub fn find(id: u64, k1: &[u8], k2: &[u8]) -> Option<usize> {
    let d = db();
    for i in 0..d.len() {
        let e = &d[i];
        if e.id == id && e.k1.len() == k1.len() && e.k2.len() == k2.len() && e.k1[..] == *k1 && e.k2[..] == *k2 {
            return Some(i);
        }
    }
    None
}
pub fn get(id: u64, k1: &[u8], k2: &[u8]) -> Option<&'static [u8]> {
    find(id, k1, k2).map(|i| &db()[i].v[..])
}
pub fn put(id: u64, k1: Vec<u8>, k2: Vec<u8>, v: Vec<u8>) {
    match find(id, &k1, &k2) {
        Some(i) => db()[i].v = v,
        None => db().push(Entry { id, k1, k2, v }),
    }
}
pub fn kill(id: u64, k1: &[u8], k2: &[u8]) {
    if let Some(i) = find(id, k1, k2) {
        db().remove(i);
    }
}
pub const fn item_id(s: &str) -> u64 {
    // FNV-1a, evaluated at compile time
    let b = s.as_bytes();
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < b.len() {
        h ^= b[i] as u64;
        h = h.wrapping_mul(0x100000001b3);
        i += 1;
    }
    h
}
pub const fn module_index(s: &str) -> u8 {
    let h = item_id(s);
    (h ^ (h >> 8) ^ (h >> 16) ^ (h >> 24) ^ (h >> 32)) as u8
}
pub fn instance<I: 'static>() -> u64 {
    // distinct per type; () is 0
    let n = core::any::type_name::<I>();
    if n == "()" {
        0
    } else {
        item_id(n)
    }
}
