//! Reference encoders, written from the Bitcoin protocol documentation and Bitcoin Core, used as oracles.

/// Bitcoin CompactSize, canonical form.
pub fn compact_size(v: u64, o: &mut Vec<u8>) {
    if v < 0xfd {
        o.push(v as u8);
    } else if v <= 0xffff {
        o.push(0xfd);
        o.extend_from_slice(&(v as u16).to_le_bytes());
    } else if v <= 0xffff_ffff {
        o.push(0xfe);
        o.extend_from_slice(&(v as u32).to_le_bytes());
    } else {
        o.push(0xff);
        o.extend_from_slice(&v.to_le_bytes());
    }
}

#[derive(Clone)]
pub struct In {
    pub prev: [u8; 32],
    pub index: u32,
    pub script: Vec<u8>,
    pub seq: u32,
    pub wit: Vec<Vec<u8>>,
}
#[derive(Clone)]
pub struct Out {
    pub value: i64,
    pub script: Vec<u8>,
}
#[derive(Clone)]
pub struct Tx {
    pub version: i32,
    pub ins: Vec<In>,
    pub outs: Vec<Out>,
    pub lock: u32,
}
impl Tx {
    pub fn encode(&self, witness: bool) -> Vec<u8> {
        let mut o = vec![];
        o.extend_from_slice(&self.version.to_le_bytes());
        if witness {
            o.push(0);
            o.push(1);
        }
        compact_size(self.ins.len() as u64, &mut o);
        for i in &self.ins {
            o.extend_from_slice(&i.prev);
            o.extend_from_slice(&i.index.to_le_bytes());
            compact_size(i.script.len() as u64, &mut o);
            o.extend_from_slice(&i.script);
            o.extend_from_slice(&i.seq.to_le_bytes());
        }
        compact_size(self.outs.len() as u64, &mut o);
        for i in &self.outs {
            o.extend_from_slice(&i.value.to_le_bytes());
            compact_size(i.script.len() as u64, &mut o);
            o.extend_from_slice(&i.script);
        }
        if witness {
            for i in &self.ins {
                compact_size(i.wit.len() as u64, &mut o);
                for w in &i.wit {
                    compact_size(w.len() as u64, &mut o);
                    o.extend_from_slice(w);
                }
            }
        }
        o.extend_from_slice(&self.lock.to_le_bytes());
        o
    }
}

pub fn sha256d(b: &[u8]) -> [u8; 32] {
    sym::sha256(&sym::sha256(b))
}
pub fn node(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut x = [0u8; 64];
    x[..32].copy_from_slice(a);
    x[32..].copy_from_slice(b);
    sha256d(&x)
}
/// Merkle root by levels, the last element of an odd level paired with itself.
pub fn merkle_root(l: &[[u8; 32]]) -> [u8; 32] {
    let mut v = l.to_vec();
    while v.len() > 1 {
        let mut n = vec![];
        let mut i = 0;
        while i < v.len() {
            let r = if i + 1 < v.len() { v[i + 1] } else { v[i] };
            n.push(node(&v[i], &r));
            i += 2;
        }
        v = n;
    }
    v[0]
}
/// Number of levels above the leaves.
pub fn tree_height(n: u32) -> u32 {
    let mut h = 0;
    let mut w = n;
    while w > 1 {
        w = w / 2 + w % 2;
        h += 1;
    }
    h
}

/// Little-endian 256-bit helpers on 32 bytes.
/// arith_uint256::SetCompact: (value, negative, overflow)
pub fn set_compact(c: u32) -> ([u8; 32], bool, bool) {
    let size = (c >> 24) as usize;
    let word = c & 0x7f_ffff;
    let mut v = [0u8; 32];
    let m = [word as u8, (word >> 8) as u8, (word >> 16) as u8];
    let w = if size < 3 { word >> (8 * (3 - size)) } else { word };
    // bytes of the mantissa go to positions size-3, size-2, size-1
    for k in 0..3 {
        let p = size as isize - 3 + k as isize;
        if p >= 0 && p < 32 {
            v[p as usize] = m[k];
        }
    }
    let neg = w != 0 && (c & 0x80_0000) != 0;
    let ovf = w != 0 && (size > 34 || (w > 0xff && size > 33) || (w > 0xffff && size > 32));
    (v, neg, ovf)
}
/// arith_uint256::GetCompact for the low 256 bits (little-endian bytes)
pub fn get_compact(v: &[u8; 32]) -> u32 {
    let mut size = 32usize;
    while size > 0 && v[size - 1] == 0 {
        size -= 1;
    }
    let at = |p: isize| -> u32 {
        if p >= 0 {
            v[p as usize] as u32
        } else {
            0
        }
    };
    let s = size as isize;
    let mut c = at(s - 3) | at(s - 2) << 8 | at(s - 1) << 16;
    if c & 0x80_0000 != 0 {
        c >>= 8;
        size += 1;
    }
    c | (size as u32) << 24
}

/// SCALE compact length (below 2^14).
pub fn scale_len(n: usize, o: &mut Vec<u8>) {
    if n < 64 {
        o.push((n as u8) << 2);
    } else {
        o.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes());
    }
}
