//! Concrete execution of the harnesses.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
struct St {
    ins: Vec<(String, Vec<u8>)>,
    pos: usize,
    ufs: HashMap<(String, Vec<u8>), Vec<u8>>,
    params: Vec<u64>,
    allow: bool,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn done(how: &str) -> ! {
    println!("END {}", how);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
/// Runs one harness on the inputs of a replay file; prints what it observed.
pub fn run_native(table: &[(&str, extern "C" fn())]) -> ! {
    let f = std::env::args().nth(1).expect("replay file");
    let t = std::fs::read_to_string(&f).expect("readable replay file");
    let mut name = String::new();
    S.with(|s| {
        let mut s = s.borrow_mut();
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "harness" => name = w[1].to_string(),
                "param" => s.params = w[1..].iter().filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                "in" => s.ins.push((w[1].to_string(), unhex(w.get(2).unwrap_or(&"")))),
                "uf" => {
                    let f = w[1].rsplit_once('/').map(|x| x.0).unwrap_or(w[1]);
                    let n: usize = w[1].rsplit_once('/').map(|x| x.1.parse().unwrap()).unwrap_or(0);
                    let mut i = unhex(w[2]);
                    i.truncate(n);
                    s.ufs.insert((f.to_string(), i), unhex(w[3]));
                }
                _ => {}
            }
        }
    });
    std::panic::set_hook(Box::new(|i| {
        let allow = S.with(|s| s.try_borrow().map(|s| s.allow).unwrap_or(false));
        println!("{} {}", if allow { "ALLOWED-PANIC" } else { "PANIC" }, i.to_string().replace('\n', " "));
        done("panic")
    }));
    for (n, f) in table {
        if *n == name {
            f();
            done("return");
        }
    }
    println!("NOHARNESS {}", name);
    std::process::exit(3)
}
pub fn input(b: &mut [u8], _kind: usize, name: &str) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        if p >= s.ins.len() {
            // inputs asked for after the point the engine stopped at: zero
            return;
        }
        let (n, v) = &s.ins[p];
        if n != &name.replace(' ', "_") || v.len() != b.len() {
            println!("MISMATCH input {} wanted {} ({} bytes) got {} ({} bytes)", p, name, b.len(), n, v.len());
            std::process::exit(3);
        }
        b.copy_from_slice(v);
    })
}
pub fn assume(b: bool) {
    if !b {
        done("assume")
    }
}
pub fn check(b: bool, name: &str) {
    if !b {
        println!("CHECK-FAILED {}", name);
        done("check")
    }
}
pub fn reach(name: &str) {
    println!("TAG {}", name)
}
pub fn expect(_: &str) {}
pub fn observe(v: u64, name: &str) {
    println!("OBS {} {}", name, v)
}
pub fn concretize(v: u64) -> u64 {
    v
}
pub fn param(i: usize) -> u64 {
    S.with(|s| s.borrow().params.get(i).copied().unwrap_or(0))
}
pub fn allow_panic(b: bool) {
    S.with(|s| s.borrow_mut().allow = b)
}
pub fn end() {
    done("end")
}
pub fn uf(name: &str, i: &[u8], o: &mut [u8]) {
    let v = S.with(|s| s.borrow().ufs.get(&(name.to_string(), i.to_vec())).cloned());
    if let Some(v) = v {
        o.copy_from_slice(&v[..o.len()]);
        return;
    }
    let h = match name {
        "sha256" => real_sha256(i).to_vec(),
        "sha256d" => real_sha256(&real_sha256(i)).to_vec(),
        _ => {
            // any deterministic function will do
            let mut x = name.as_bytes().to_vec();
            x.extend_from_slice(i);
            let mut r = real_sha256(&x).to_vec();
            r.extend(real_sha256(&r));
            r
        }
    };
    let l = o.len();
    o.copy_from_slice(&h[..l]);
}
pub fn muldiv(a: u128, b: u128, c: u128, r: usize) -> Option<u128> {
    if c == 0 {
        return None;
    }
    // 256-bit schoolbook
    let (m, hi) = {
        let (a0, a1, b0, b1) = (a as u64 as u128, a >> 64, b as u64 as u128, b >> 64);
        let p00 = a0 * b0;
        let p01 = a0 * b1;
        let p10 = a1 * b0;
        let p11 = a1 * b1;
        let mid = (p00 >> 64) + (p01 as u64 as u128) + (p10 as u64 as u128);
        ((mid << 64) | (p00 as u64 as u128), p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64))
    };
    // long division of (hi, m) by c
    let mut rem: u128 = 0;
    let mut q: u128 = 0;
    let mut qo = false;
    for i in (0..256).rev() {
        let bit = if i >= 128 { (hi >> (i - 128)) & 1 } else { (m >> i) & 1 };
        let carry = rem >> 127;
        rem = (rem << 1) | bit;
        if carry == 1 || rem >= c {
            rem = rem.wrapping_sub(c);
            if i >= 128 {
                qo = true;
            } else {
                q |= 1 << i;
            }
        }
    }
    if qo {
        return None;
    }
    let up = match r {
        0 => false,
        1 => rem != 0,
        2 => rem > c - rem,
        _ => rem >= c - rem,
    };
    if up {
        q.checked_add(1)
    } else {
        Some(q)
    }
}
pub fn u256(_: usize, _: &[u64; 4], _: &[u64; 4]) -> ([u64; 4], bool) {
    unreachable!("native build uses the real code")
}
pub fn real_sha256(d: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01,
        0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
        0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
        0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08,
        0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
        0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] =
        [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((d.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
