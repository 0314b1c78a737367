//! Harnesses for crates/bitcoin. Each runs the real functions on symbolic inputs.
#![allow(clippy::all)]
mod spec;
use bitcoin::formatter::{TryFormat, Writer};
use bitcoin::merkle::{MerkleProof, MerkleTree, PartialTransactionProof};
use bitcoin::parser::{parse_block_header, parse_compact_uint, parse_transaction};
use bitcoin::types::*;
use bitcoin::{Address, Error, GetCompact, PublicKey, Script, SetCompact};
use codec::{Decode, Encode, MaxEncodedLen};
use spec::{In, Out, Tx};

fn le_bytes(v: &U256) -> [u8; 32] {
    let mut o = [0u8; 32];
    v.to_little_endian(&mut o);
    o
}
fn u256(name: &str) -> U256 {
    U256(sym::limbs(name))
}
fn h256le(name: &str) -> H256Le {
    H256Le::from_bytes_le(&sym::bytes::<32>(name))
}


/// Zero-sized element: a vector of them can have any length.
struct Zst2;
impl<'a> TryFormat for &'a Zst2 {
    fn try_format<W: Writer>(&self, _w: &mut W) -> Result<(), Error> {
        Err(Error::EndOfFile)
    }
}

fn gen_tx(version: i32, nin: usize, nout: usize, il: usize, ol: usize, wit: usize) -> Tx {
    let mut ins = vec![];
    // bit i of the sixth parameter: input i has no witness
    let skip = sym::param(5);
    for i in 0..nin {
        let prev = sym::bytes::<32>("prev");
        let mut w = vec![];
        for k in 0..if skip >> i & 1 == 1 { 0 } else { wit } {
            w.push(sym::byte_vec("wit", k + 1));
        }
        ins.push(In { prev, index: sym::u32("index"), script: sym::byte_vec("in_script", il), seq: sym::u32("seq"), wit: w });
    }
    let mut outs = vec![];
    for _ in 0..nout {
        outs.push(Out { value: sym::i64("value"), script: sym::byte_vec("out_script", ol) });
    }
    Tx { version, ins, outs, lock: sym::u32("lock") }
}
fn to_real(t: &Tx) -> Transaction {
    let mut b = TransactionBuilder::new();
    b.with_version(t.version);
    for i in &t.ins {
        let mut x = TransactionInputBuilder::new();
        x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&i.prev), i.index))
            .with_script(&i.script)
            .with_sequence(i.seq);
        for w in &i.wit {
            x.add_witness(w);
        }
        b.add_input(x.build());
    }
    for o in &t.outs {
        b.add_output(TransactionOutput { value: o.value, script: Script::from(o.script.clone()) });
    }
    if t.lock < 500_000_000 {
        b.with_block_height(t.lock);
    } else {
        b.with_locktime(t.lock);
    }
    b.build()
}
fn tx_matches(r: &Transaction, t: &Tx, wit: bool) {
    sym::check(r.version == t.version, "version");
    sym::check(r.inputs.len() == t.ins.len(), "input count");
    for (a, b) in r.inputs.iter().zip(t.ins.iter()) {
        match a.source {
            TransactionInputSource::FromOutput(h, i) => {
                sym::check(h.to_bytes_le() == b.prev, "previous hash");
                sym::check(i == b.index, "previous index");
            }
            _ => sym::check(false, "source"),
        }
        sym::check(a.script == b.script, "input script");
        sym::check(a.sequence == b.seq, "sequence");
        if wit {
            sym::check(a.witness == b.wit, "witness");
        } else {
            sym::check(a.witness.is_empty(), "no witness");
        }
    }
    sym::check(r.outputs.len() == t.outs.len(), "output count");
    for (a, b) in r.outputs.iter().zip(t.outs.iter()) {
        sym::check(a.value == b.value, "value");
        sym::check(a.script.as_bytes() == &b.script[..], "output script");
    }
    let want = if t.lock < 500_000_000 { LockTime::BlockHeight(t.lock) } else { LockTime::Time(t.lock) };
    sym::check(r.lock_at == want, "lock time");
}
fn header_from(b: &[u8; 80]) -> BlockHeader {
    parse_block_header(b).unwrap()
}
fn simple_tx(k: u8) -> Transaction {
    let mut b = TransactionBuilder::new();
    let mut x = TransactionInputBuilder::new();
    x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[k + 1; 32]), k as u32)).with_sequence(7);
    b.add_input(x.build());
    b.add_output(TransactionOutput { value: sym::i64("amount"), script: Script::from(sym::byte_vec("pay", 3)) });
    b.build()
}

sym::harnesses! {
    // ------------------------------------------------------------------ CompactSize
    fn compact_format() {
        sym::expect("one"); sym::expect("three"); sym::expect("five"); sym::expect("nine");
        let n = sym::u64("n");
        sym::assume(n > 0);
        let mut v: Vec<Zst2> = Vec::new();
        unsafe { v.set_len(n as usize) };
        let mut o: Vec<u8> = vec![];
        let _ = v.try_format(&mut o);
        core::mem::forget(v);
        let mut w = vec![];
        spec::compact_size(n, &mut w);
        match w.len() { 1 => sym::reach("one"), 3 => sym::reach("three"), 5 => sym::reach("five"), _ => sym::reach("nine") }
        sym::observe(o.len() as u64, "len");
        sym::check(o == w, "canonical CompactSize encoding");
        match parse_compact_uint(&o) {
            Ok((x, l)) => {
                sym::check(x == n, "decodes to the value encoded");
                sym::check(l == o.len(), "decoder consumes the whole encoding");
            }
            Err(_) => sym::check(false, "encoding decodes"),
        }
    }
    fn compact_parse() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        sym::expect("ok"); 
        match parse_compact_uint(&b) {
            Ok((x, l)) => {
                sym::reach("ok");
                sym::check(l <= n, "consumes what is there");
                sym::check(l == 1 || l == 3 || l == 5 || l == 9, "length");
                let want = match b[0] { 0xfd => 3, 0xfe => 5, 0xff => 9, _ => 1 };
                sym::check(l == want, "length follows the prefix");
                let mut v: u64 = 0;
                if l == 1 { v = b[0] as u64 } else { for k in (1..l).rev() { v = v << 8 | b[k] as u64 } }
                sym::check(x == v, "little-endian payload");
            }
            Err(_) => {
                let want = if n == 0 { 1 } else { match b[0] { 0xfd => 3, 0xfe => 5, 0xff => 9, _ => 1 } };
                sym::check(n < want, "only short input is rejected");
            }
        }
    }

    // ------------------------------------------------------------------ totality of the parsers
    fn parse_tx_any() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        sym::expect("rejected");
        match parse_transaction(&b) {
            Ok(_) => sym::reach("accepted"),
            Err(_) => sym::reach("rejected"),
        }
    }
    /// one input, first bytes fixed to the plain layout, so that the input parser sees arbitrary bytes
    fn parse_tx_input_any() {
        let n = sym::param(0) as usize;
        let coinbase = sym::param(1) == 1;
        let mut b = vec![];
        let v = sym::pick("version", 1, 2);
        b.extend_from_slice(&(v as u32).to_le_bytes());
        b.push(1);
        if coinbase { b.extend_from_slice(&[0; 32]); } else { b.extend_from_slice(&[9; 32]); }
        b.extend_from_slice(&sym::byte_vec("b", n));
        sym::expect("rejected"); 
        match parse_transaction(&b) {
            Ok(t) => {
                sym::reach("accepted");
                sym::check(t.version == v as i32, "version");
                sym::check(t.inputs.len() == 1, "one input");
                match t.inputs[0].source {
                    TransactionInputSource::Coinbase(h) => {
                        sym::check(coinbase, "coinbase iff the previous hash is zero");
                        sym::check(h.is_some() == (v == 2), "height is present in version 2 only");
                        sym::check(t.inputs[0].script.len() <= 100, "coinbase script limit");
                        sym::check(b[37] == 255 && b[38] == 255 && b[39] == 255 && b[40] == 255, "coinbase has index 0xffffffff");
                    }
                    TransactionInputSource::FromOutput(..) => sym::check(!coinbase, "coinbase iff the previous hash is zero"),
                }
                for o in &t.outputs { sym::check(o.script.len() <= 10_000, "output script limit"); }
            }
            Err(_) => sym::reach("rejected"),
        }
    }
    fn parse_header_any() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        match BlockHeader::from_bytes(&b) {
            Ok(_) => { sym::check(n == 80, "only 80 bytes are a header"); }
            Err(_) => {}
        }
        let _ = parse_block_header(&b);
    }
    fn parse_proof_any() {
        let n = sym::param(0) as usize;
        let mut b = vec![0u8; 80];
        b.extend_from_slice(&sym::byte_vec("b", n));
        sym::expect("rejected");
        match MerkleProof::parse(&b) {
            Ok(p) => {
                sym::reach("accepted");
                sym::check(p.flag_bits.len() % 8 == 0, "whole bytes of flags");
                sym::check(p.hashes.len() * 32 + p.flag_bits.len() / 8 + 6 <= n, "contents come from the input");
            }
            Err(_) => sym::reach("rejected"),
        }
    }

    // ------------------------------------------------------------------ transactions
    fn tx_roundtrip() {
        let (nin, nout) = (sym::param(0) as usize, sym::param(1) as usize);
        let (il, ol, wit) = (sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
        let version = sym::pick("version", 1, 2) as i32;
        let t = gen_tx(version, nin, nout, il, ol, wit);
        for i in &t.ins { sym::assume(i.prev != [0u8; 32]); }
        let b = t.encode(wit > 0);
        sym::expect("parsed");
        match parse_transaction(&b) {
            Ok(r) => {
                sym::reach("parsed");
                tx_matches(&r, &t, wit > 0);
                let mut o: Vec<u8> = vec![];
                sym::check(r.try_format(&mut o).is_ok(), "formats");
                sym::check(o == b, "re-encodes to the same bytes");
                let real = to_real(&t);
                sym::check(real == r, "parser agrees with the builder");
            }
            Err(_) => sym::check(false, "a well-formed transaction parses"),
        }
    }
    /// whatever is accepted formats to bytes which parse to the same transaction
    fn parse_idem() {
        let (version, n) = (sym::param(0) as u32, sym::param(1) as usize);
        let mut b = version.to_le_bytes().to_vec();
        b.push(1);
        let prev = sym::bytes::<32>("prev");
        sym::assume(prev != [0u8; 32]);
        b.extend_from_slice(&prev);
        b.extend_from_slice(&sym::byte_vec("b", n));
        match parse_transaction(&b) {
            Ok(t) => {
                sym::reach("accepted");
                let mut o: Vec<u8> = vec![];
                sym::check(t.try_format(&mut o).is_ok(), "formats");
                sym::check(matches!(parse_transaction(&o), Ok(r) if r == t), "parses to the same transaction");
                sym::check(o.len() <= b.len(), "canonical encodings are the shortest");
            }
            Err(_) => sym::reach("rejected"),
        }
        sym::expect("rejected");
    }
    fn tx_id() {
        let (nin, nout) = (sym::param(0) as usize, sym::param(1) as usize);
        let (il, ol, wit) = (sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
        let version = sym::i32("version");
        let t = gen_tx(version, nin, nout, il, ol, wit);
        let b = t.encode(false);
        let r = to_real(&t);
        sym::check(r.tx_id().to_bytes_le() == spec::sha256d(&b), "txid is the double hash of the witness-free encoding");
        sym::check(r.size_no_witness() == b.len(), "size");
        let f = t.encode(wit > 0);
        sym::check(r.hash().to_bytes_le() == spec::sha256d(&f), "wtxid is the double hash of the full encoding");
        let bound = sym::u32("bound");
        sym::expect("within"); sym::expect("beyond");
        match r.tx_id_bounded(bound) {
            Ok(h) => {
                sym::reach("within");
                sym::check(bound as usize >= b.len(), "bound respected");
                sym::check(h == r.tx_id(), "bounded and unbounded ids agree");
            }
            Err(_) => {
                sym::reach("beyond");
                sym::check((bound as usize) < b.len(), "only over-long encodings are rejected");
            }
        }
    }
    fn tx_id_binding() {
        // two transactions of the same shape have equal ids only when all committed fields are equal
        let a = gen_tx(2, 1, 1, 2, 3, 1);
        let b = gen_tx(2, 1, 1, 2, 3, 1);
        let (x, y) = (to_real(&a), to_real(&b));
        sym::expect("same"); sym::expect("different");
        if x.tx_id() == y.tx_id() {
            sym::reach("same");
            sym::check(x.outputs == y.outputs && x.inputs[0].source == y.inputs[0].source && x.lock_at == y.lock_at, "id commits to the contents");
            sym::check(x.inputs[0].script == y.inputs[0].script && x.inputs[0].sequence == y.inputs[0].sequence, "id commits to the inputs");
        } else {
            sym::reach("different");
        }
    }
    /// coinbase inputs: height push of BIP34 and its round trip
    fn coinbase_height() {
        let h = sym::u32("height");
        sym::assume(h < 1 << 31);
        let extra = sym::param(0) as usize;
        let script = sym::byte_vec("script", extra);
        let mut b = TransactionBuilder::new();
        b.with_version(2);
        let mut x = TransactionInputBuilder::new();
        x.with_source(TransactionInputSource::Coinbase(Some(h))).with_script(&script).with_sequence(sym::u32("seq"));
        b.add_input(x.build());
        b.add_output(TransactionOutput { value: 5, script: Script::from(vec![1]) });
        let t = b.build();
        sym::check(t.is_coinbase(), "is a coinbase");
        let mut o: Vec<u8> = vec![];
        let _ = t.try_format(&mut o);
        // 4 version, 1 count, 36 outpoint, script length, push length, height
        let sl = o[41] as usize;
        let k = o[42] as usize;
        sym::check(sl == 1 + k + extra, "script length covers the height push");
        sym::expect("k1"); sym::expect("k2"); sym::expect("k3"); sym::expect("k4");
        match k { 1 => sym::reach("k1"), 2 => sym::reach("k2"), 3 => sym::reach("k3"), _ => sym::reach("k4") }
        sym::check(k >= 1 && k <= 4, "push of one to four bytes");
        let mut v: u64 = 0;
        for i in (0..k).rev() { v = v << 8 | o[43 + i] as u64; }
        sym::check(v == h as u64, "little-endian height");
        sym::check(o[43 + k - 1] & 0x80 == 0, "the script number is positive");
        if k > 1 { sym::check(o[43 + k - 1] != 0 || o[43 + k - 2] & 0x80 != 0, "minimal push"); }
        match parse_transaction(&o) {
            Ok(r) => sym::check(r == t, "parses back to the same coinbase"),
            Err(_) => sym::check(false, "coinbase parses"),
        }
    }
    // ------------------------------------------------------------------ headers
    fn header_roundtrip() {
        let b = sym::bytes::<80>("b");
        sym::expect("ok"); sym::expect("bad");
        match BlockHeader::from_bytes(&b) {
            Ok(h) => {
                sym::reach("ok");
                sym::check(h.version as u32 == u32::from_le_bytes([b[0], b[1], b[2], b[3]]), "version");
                sym::check(h.hash_prev_block.to_bytes_le() == b[4..36], "previous hash");
                sym::check(h.merkle_root.to_bytes_le() == b[36..68], "merkle root");
                sym::check(h.timestamp == u32::from_le_bytes([b[68], b[69], b[70], b[71]]), "time");
                sym::check(h.nonce == u32::from_le_bytes([b[76], b[77], b[78], b[79]]), "nonce");
                sym::check(h.hash.to_bytes_le() == spec::sha256d(&b), "stored hash is the double hash of the 80 bytes");
                let bits = u32::from_le_bytes([b[72], b[73], b[74], b[75]]);
                let (v, neg, ovf) = spec::set_compact(bits);
                sym::check(!neg && !ovf, "negative or overflowing targets are rejected");
                sym::check(le_bytes(&h.target) == v, "target");
                sym::check(h.ensure_version().is_ok() == (h.version >= 4), "version rule");
                // canonical nBits: header bytes are reproduced
                if spec::get_compact(&v) == bits {
                    let mut o: Vec<u8> = vec![];
                    sym::check(h.try_format(&mut o).is_ok() && o == b, "formats to the same 80 bytes");
                    match h.hash() { Ok(x) => sym::check(x == h.hash, "recomputed hash"), Err(_) => sym::check(false, "hash") }
                }
            }
            Err(_) => {
                sym::reach("bad");
                let bits = u32::from_le_bytes([b[72], b[73], b[74], b[75]]);
                let (_, neg, ovf) = spec::set_compact(bits);
                sym::check(neg || ovf, "only bad targets are rejected");
            }
        }
    }
    fn header_hash_binds() {
        // whatever the claimed hash field says, hash() and update_hash() depend on the header contents only
        let mk = |n: &str| BlockHeader {
            merkle_root: h256le(n), target: U256::from(sym::u64("target")), timestamp: sym::u32("time"), version: sym::i32("version"),
            hash: h256le("claimed"), hash_prev_block: h256le("prev"), nonce: sym::u32("nonce"),
        };
        let mut a = mk("root");
        let b = mk("root2");
        sym::assume(a.target.0[0] < 1 << 23 && b.target.0[0] < 1 << 23);
        let (x, y) = (a.hash(), b.hash());
        let (x, y) = match (x, y) { (Ok(x), Ok(y)) => (x, y), _ => { sym::check(false, "hashes"); return; } };
        sym::expect("same"); sym::expect("different");
        if x == y {
            sym::reach("same");
            sym::check(a.merkle_root == b.merkle_root && a.timestamp == b.timestamp && a.version == b.version, "commits 1");
            sym::check(a.hash_prev_block == b.hash_prev_block && a.nonce == b.nonce && a.target == b.target, "commits 2");
        } else { sym::reach("different"); }
        let r = a.update_hash();
        sym::check(r.is_ok() && a.hash == x, "update_hash stores the recomputed hash");
    }
    // ------------------------------------------------------------------ compact targets
    fn nbits_decode() {
        let c = sym::u32("bits");
        let (v, neg, ovf) = spec::set_compact(c);
        sym::expect("value"); sym::expect("none");
        match U256::set_compact(c) {
            Some(x) => {
                sym::reach("value");
                sym::check(!neg && !ovf, "negative and overflowing encodings are rejected");
                sym::check(le_bytes(&x) == v, "decodes like Bitcoin Core");
            }
            None => { sym::reach("none"); sym::check(neg || ovf, "nothing else is rejected"); }
        }
    }
    fn nbits_encode() {
        let x = u256("x");
        let b = le_bytes(&x);
        sym::expect("some");
        match x.get_compact() {
            Some(c) => {
                sym::reach("some");
                sym::check(c == spec::get_compact(&b), "encodes like Bitcoin Core");
                // decoding truncates to the top 23 or 24 significant bits, never rounds up
                match U256::set_compact(c) {
                    Some(y) => {
                        sym::check(y <= x, "never above the original");
                        sym::check(y.get_compact() == Some(c), "encoding is a fixed point");
                    }
                    None => sym::check(false, "own encodings decode"),
                }
            }
            None => sym::check(false, "every 256-bit target has an encoding"),
        }
    }
    /// previous target in compact form with the given exponent, any two block times
    fn retarget() {
        let e = sym::param(0) as usize;
        // mode 0: both symbolic; 1: the given mantissa; 2: the given clock difference
        let mode = sym::param(1);
        let m: [u8; 3] = if mode == 1 { let x = (sym::param(2) as u32).to_le_bytes(); [x[0], x[1], x[2]] } else { sym::bytes("mantissa") };
        sym::assume(m[2] < 0x80);
        let mut tb = [0u8; 32];
        for k in 0..3 { if e + k >= 3 { tb[e + k - 3] = m[k]; } }
        let t = U256::from_little_endian(&tb);
        if e == 29 { sym::assume(m[2] == 0); } // no larger than the maximum target
        let two_weeks: u64 = 1_209_600;
        let first = sym::u32("first") as u64;
        let last = if mode == 2 { first + sym::param(2) } else { sym::u32("last") as u64 };
        let mut span = if last < first { 0 } else { last - first };
        if span < two_weeks / 4 { sym::reach("short"); span = two_weeks / 4; }
        else if span > two_weeks * 4 { sym::reach("long"); span = two_weeks * 4; }
        else { sym::reach("between"); }
        if mode != 2 { sym::expect("short"); sym::expect("long"); sym::expect("between"); }
        let want = t * U256::from(span) / U256::from(two_weeks);
        let want = if want > bitcoin::pow::UNROUNDED_MAX_TARGET { bitcoin::pow::UNROUNDED_MAX_TARGET } else { want };
        match bitcoin::pow::calculate_next_work_required(t, first, last) {
            Ok(c) => sym::check(c == spec::get_compact(&le_bytes(&want)), "retarget formula"),
            Err(_) => sym::check(false, "always succeeds below the maximum target"),
        }
    }
    // ------------------------------------------------------------------ merkle
    fn merkle_root_matches() {
        let n = sym::param(0) as usize;
        let l: Vec<[u8; 32]> = (0..n).map(|_| sym::bytes::<32>("leaf")).collect();
        let ids: Vec<H256Le> = l.iter().map(|x| H256Le::from_bytes_le(x)).collect();
        let h = MerkleTree::compute_height(n as u32);
        sym::check(h == spec::tree_height(n as u32), "height");
        sym::check(h == bitcoin::utils::log2(n as u64), "log2 agrees");
        match MerkleTree::compute_root(0, h, n as u32, &ids) {
            Ok(r) => sym::check(r.to_bytes_le() == spec::merkle_root(&l), "root"),
            Err(_) => sym::check(false, "root computes"),
        }
    }
    fn merkle_geometry() {
        let n = sym::u32("n");
        sym::assume(n >= 1 && n <= 16_666);
        let n = n;
        // one path per height
        let h = MerkleTree::compute_height(n);
        sym::check(h <= 15, "height bound");
        sym::check(n as u64 <= 1u64 << h, "fits");
        sym::check(h == 0 || n as u64 > 1u64 << (h - 1), "minimal");
        let k = sym::u32("k");
        sym::assume(k <= h);
        let k = sym::concretize(k as u64) as u32;
        let w = MerkleTree::compute_width(n, k);
        sym::check((w as u64) << k >= n as u64 && ((w as u64 - 1) << k) < n as u64, "width is the ceiling");
    }
    fn merkle_sound() {
        // n real leaves; a proof claiming m transactions (same height) with arbitrary flags and hashes
        let n = sym::param(0) as usize;
        let m = sym::param(1) as u32;
        let nh = sym::param(2) as usize;
        let nf = sym::param(3) as usize;
        let l: Vec<[u8; 32]> = (0..n).map(|_| sym::bytes::<32>("leaf")).collect();
        let root = spec::merkle_root(&l);
        let mut flags = vec![];
        for _ in 0..nf { flags.push(sym::boolean("flag")); }
        let hashes: Vec<H256Le> = (0..nh).map(|_| h256le("hash")).collect();
        let tx = simple_tx(0);
        let id = tx.tx_id();
        let len = tx.size_no_witness() as u32;
        let header = BlockHeader { merkle_root: H256Le::from_bytes_le(&root), hash: h256le("bh"), ..Default::default() };
        let p = PartialTransactionProof {
            transaction: tx, tx_encoded_len: len,
            merkle_proof: MerkleProof { block_header: header, flag_bits: flags, transactions_count: m, hashes },
        };
        match p.verify_proof() {
            Ok(r) => {
                if r.extracted_root.to_bytes_le() == root {
                    sym::reach("verified");
                    sym::check(r.transaction_hash == id, "reported hash is the transaction's");
                    sym::check(r.tx_count == m, "count");
                    sym::check(r.block_hash == header.hash, "block");
                    sym::check(r.transaction_position < m, "position in range");
                    let mut found = false;
                    for x in &l { found |= *x == id.to_bytes_le(); }
                    sym::check(found, "the transaction is a leaf of the tree");
                    if m as usize == n {
                        let pos = sym::concretize(r.transaction_position as u64) as usize;
                        sym::check(l[pos] == id.to_bytes_le(), "at the reported position");
                    }
                }
            }
            Err(_) => {}
        }
    }
    /// verify_proof against a direct port of CPartialMerkleTree::ExtractMatches
    fn merkle_extract_spec() {
        let m = sym::param(0) as u32;
        let nh = sym::param(1) as usize;
        let nf = sym::param(2) as usize;
        let mut flags = vec![];
        for _ in 0..nf { flags.push(sym::boolean("flag")); }
        let hashes: Vec<[u8; 32]> = (0..nh).map(|_| sym::bytes::<32>("hash")).collect();
        struct E<'a> { m: u32, flags: &'a [bool], hashes: &'a [[u8; 32]], b: usize, h: usize, bad: bool, last: Option<(u32, usize)>, leaves: u32 }
        impl<'a> E<'a> {
            fn width(&self, h: u32) -> u32 { ((self.m as u64 + (1 << h) - 1) >> h) as u32 }
            fn go(&mut self, h: u32, pos: u32) -> [u8; 32] {
                if self.b >= self.flags.len() { self.bad = true; return [0; 32]; }
                let parent = self.flags[self.b];
                self.b += 1;
                if h == 0 || !parent {
                    if self.h >= self.hashes.len() { self.bad = true; return [0; 32]; }
                    let x = self.hashes[self.h];
                    self.h += 1;
                    if h == 0 && parent { self.last = Some((pos, self.h - 1)); self.leaves += 1; }
                    return x;
                }
                let a = self.go(h - 1, 2 * pos);
                if self.bad { return a; }
                let b = if 2 * pos + 1 < self.width(h - 1) { self.go(h - 1, 2 * pos + 1) } else { a };
                if self.bad { return a; }
                spec::node(&a, &b)
            }
        }
        let mut e = E { m, flags: &flags, hashes: &hashes, b: 0, h: 0, bad: false, last: None, leaves: 0 };
        let too = m == 0 || m > 16_666 || nh > m as usize || nf < nh;
        let mut root = [0u8; 32];
        if !too {
            root = e.go(spec::tree_height(m), 0);
            if (e.b + 7) / 8 != (nf + 7) / 8 || e.h != nh { e.bad = true; }
        } else { e.bad = true; }
        let tx = simple_tx(1);
        let id = tx.tx_id();
        let len = tx.size_no_witness() as u32;
        let p = PartialTransactionProof {
            transaction: tx, tx_encoded_len: len,
            merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: flags.clone(), transactions_count: m,
                hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect() },
        };
        match p.verify_proof() {
            Ok(r) => {
                sym::reach("accepted");
                sym::check(!e.bad, "Bitcoin Core accepts this proof too");
                sym::check(r.extracted_root.to_bytes_le() == root, "same root");
                match e.last {
                    Some((pos, k)) => {
                        sym::check(r.transaction_position == pos, "position of the matched leaf");
                        sym::check(hashes[k] == id.to_bytes_le(), "matched leaf is the transaction");
                    }
                    None => sym::check(false, "a leaf is matched"),
                }
            }
            Err(_) => {
                sym::reach("refused");
                let fine = !e.bad && match e.last { Some((_, k)) => hashes[k] == id.to_bytes_le(), None => false };
                sym::check(!fine, "a good proof is accepted");
            }
        }
    }
    fn merkle_complete() {
        let n = sym::param(0) as usize;
        let i = sym::param(1) as usize;
        let txs: Vec<Transaction> = (0..n).map(|k| simple_tx(k as u8)).collect();
        let ids: Vec<[u8; 32]> = txs.iter().map(|t| t.tx_id().to_bytes_le()).collect();
        let root = spec::merkle_root(&ids);
        let block = Block { header: BlockHeader { hash: h256le("bh"), ..Default::default() }, transactions: txs.clone() };
        match block.merkle_proof(&[H256Le::from_bytes_le(&ids[i])]) {
            Ok(p) => {
                let len = txs[i].size_no_witness() as u32;
                sym::check(p.transactions_count == n as u32, "count");
                match (PartialTransactionProof { transaction: txs[i].clone(), tx_encoded_len: len, merkle_proof: p.clone() }).verify_proof() {
                    Ok(r) => {
                        sym::reach("verified");
                        sym::check(r.extracted_root.to_bytes_le() == root, "root");
                        sym::check(r.transaction_position == i as u32, "position");
                        sym::check(r.transaction_hash.to_bytes_le() == ids[i], "hash");
                        sym::check(r.transaction == txs[i], "transaction");
                        sym::check(r.block_hash == block.header.hash, "block hash");
                    }
                    Err(_) => sym::check(false, "an honest proof verifies"),
                }
                // the other transactions are not proven by it
                let j = (i + 1) % n;
                if j != i {
                    let len = txs[j].size_no_witness() as u32;
                    let bad = PartialTransactionProof { transaction: txs[j].clone(), tx_encoded_len: len, merkle_proof: p }.verify_proof();
                    sym::check(bad.is_err(), "proof is bound to its transaction");
                }
            }
            Err(_) => sym::check(false, "proof is built"),
        }
        sym::expect("verified");
    }
    fn proof_roundtrip() {
        let nh = sym::param(0) as usize;
        let nf = sym::param(1) as usize;
        let hb = sym::bytes::<80>("header");
        sym::assume(hb[72] == 0xff && hb[73] == 0xff && hb[74] == 0 && hb[75] == 0x1d);
        let p = MerkleProof {
            block_header: header_from(&hb),
            flag_bits: (0..nf).map(|_| sym::boolean("flag")).collect(),
            transactions_count: sym::u32("count"),
            hashes: (0..nh).map(|_| h256le("hash")).collect(),
        };
        let mut o: Vec<u8> = vec![];
        sym::check(p.try_format(&mut o).is_ok(), "formats");
        sym::check(o.len() == 80 + 4 + 1 + 32 * nh + 1 + (nf + 7) / 8, "size");
        sym::check(o[..80] == hb, "header bytes");
        match MerkleProof::parse(&o) {
            Ok(q) => {
                sym::reach("parsed");
                sym::check(q.block_header == p.block_header && q.transactions_count == p.transactions_count && q.hashes == p.hashes, "fields");
                sym::check(q.flag_bits.len() == (nf + 7) / 8 * 8, "flags padded to bytes");
                for k in 0..q.flag_bits.len() {
                    sym::check(q.flag_bits[k] == if k < nf { p.flag_bits[k] } else { false }, "flag bit");
                }
            }
            Err(_) => sym::check(false, "parses"),
        }
        sym::expect("parsed");
    }
    // ------------------------------------------------------------------ scripts and addresses
    fn script_classify() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("s", n);
        let s = Script::from(b.clone());
        let pkh = n == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 0x14 && b[23] == 0x88 && b[24] == 0xac;
        let sh = n == 23 && b[0] == 0xa9 && b[1] == 0x14 && b[22] == 0x87;
        let wpkh = n == 22 && b[0] == 0 && b[1] == 0x14;
        let wsh = n == 34 && b[0] == 0 && b[1] == 0x20;
        sym::check(s.is_p2pkh() == pkh, "p2pkh");
        sym::check(s.is_p2sh() == sh, "p2sh");
        sym::check(s.is_p2wpkh_v0() == wpkh, "p2wpkh");
        sym::check(s.is_p2wsh_v0() == wsh, "p2wsh");
        match Address::from_script_pub_key(&s) {
            Ok(a) => {
                sym::reach("standard");
                match a {
                    Address::P2PKH(h) => sym::check(pkh && h.as_bytes() == &b[3..23], "P2PKH payload"),
                    Address::P2SH(h) => sym::check(sh && h.as_bytes() == &b[2..22], "P2SH payload"),
                    Address::P2WPKHv0(h) => sym::check(wpkh && h.as_bytes() == &b[2..22], "P2WPKH payload"),
                    Address::P2WSHv0(h) => sym::check(wsh && h.as_bytes() == &b[2..34], "P2WSH payload"),
                }
                sym::check(a.to_script_pub_key() == s, "script is reproduced");
                let mut zero = true;
                let p = match a { Address::P2PKH(_) => 3, _ => 2 };
                let q = match a { Address::P2WSHv0(_) => 34, _ => p + 20 };
                for k in p..q { zero &= b[k] == 0; }
                sym::check(a.is_zero() == zero, "is_zero");
                let o = TransactionOutput { value: 3, script: s.clone() };
                sym::check(o.extract_address() == Ok(a), "extract_address");
            }
            Err(_) => { sym::reach("other"); sym::check(!pkh && !sh && !wpkh && !wsh, "standard scripts are recognised"); }
        }
    }
    fn address_roundtrip() {
        let k = sym::param(0);
        let a = match k {
            0 => Address::P2PKH(H160(sym::bytes("h"))),
            1 => Address::P2SH(H160(sym::bytes("h"))),
            2 => Address::P2WPKHv0(H160(sym::bytes("h"))),
            _ => Address::P2WSHv0(H256(sym::bytes("h"))),
        };
        let s = a.to_script_pub_key();
        sym::check(s.len() == [25usize, 23, 22, 34][k as usize], "script size");
        sym::check(Address::from_script_pub_key(&s) == Ok(a), "address is recovered from its script");
        let out = TransactionOutput::payment(sym::i64("v"), &a);
        sym::check(out.script == s, "payment pays to the script");
        // other direction: distinct addresses have distinct scripts
        let b = match sym::param(1) {
            0 => Address::P2PKH(H160(sym::bytes("g"))),
            1 => Address::P2SH(H160(sym::bytes("g"))),
            2 => Address::P2WPKHv0(H160(sym::bytes("g"))),
            _ => Address::P2WSHv0(H256(sym::bytes("g"))),
        };
        sym::check((b.to_script_pub_key() == s) == (a == b), "scripts identify addresses");
    }
    fn op_return() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("s", n);
        let s = Script::from(b.clone());
        match s.extract_op_return_data() {
            Ok(d) => {
                sym::reach("data");
                sym::check(n >= 2 && n <= 83 && b[0] == 0x6a && b[1] as usize == n - 2, "well-formed OP_RETURN");
                sym::check(d == b[2..], "payload");
                sym::check(Script::op_return(&d) == s, "payload re-encodes to the script");
            }
            Err(_) => { sym::reach("none"); sym::check(!(n >= 2 && n <= 83 && b[0] == 0x6a && b[1] as usize == n - 2), "well-formed scripts are accepted"); }
        }
    }
    fn op_return_build() {
        let n = sym::param(0) as usize;
        let d = sym::byte_vec("d", n);
        let o = TransactionOutput::op_return(sym::i64("v"), &d);
        match o.script.extract_op_return_data() {
            Ok(x) => { sym::check(n <= 81, "limit"); sym::check(x == d, "round trip"); }
            Err(_) => sym::check(n > 81, "payloads within the limit round-trip"),
        }
    }
    // ------------------------------------------------------------------ hashes, numbers
    fn h256le_endianness() {
        let b = sym::bytes::<32>("b");
        let c = sym::bytes::<32>("c");
        let h = H256Le::from_bytes_le(&b);
        sym::check(h.to_bytes_le() == b, "le");
        let be = h.to_bytes_be();
        for i in 0..32 { sym::check(be[i] == b[31 - i], "be is the reverse"); }
        sym::check(H256Le::from_bytes_be(&be) == h, "from be");
        sym::check(le_bytes(&h.as_u256()) == b, "as_u256 is little-endian");
        sym::check(h.is_zero() == (b == [0u8; 32]), "is_zero");
        let g = H256Le::from_bytes_le(&c);
        sym::check((h == g) == (b == c), "equality");
        let big = H256(be);
        sym::check(big == h && h == big, "H256 is the big-endian view");
        sym::check((H256(c) == h) == (H256Le::from_bytes_be(&c) == h), "mixed equality");
        sym::check((h.as_u256() < g.as_u256()) == {
            let (mut lt, mut eq) = (false, true);
            for i in (0..32).rev() { lt |= eq & (b[i] < c[i]); eq &= b[i] == c[i]; }
            lt
        }, "numeric order");
        sym::check(h.sha256d().to_bytes_le() == spec::sha256d(&b), "sha256d");
    }
    fn log2_ceiling() {
        let v = sym::u64("v");
        sym::assume(v >= 1);
        let k = bitcoin::utils::log2(v);
        sym::check(k <= 64, "bound");
        sym::check(v as u128 <= 1u128 << k, "upper");
        sym::check(k == 0 || v as u128 > 1u128 << (k - 1), "least");
    }
    fn log256_ceiling() {
        let v = u256("v");
        sym::assume(v >= U256::one());
        let k = bitcoin::utils::log256(&v) as usize;
        sym::check(k <= 32, "bound");
        if k < 32 { sym::check(v <= U256::one() << (8 * k), "upper"); }
        sym::check(k == 0 || v > U256::one() << (8 * (k - 1)), "least");
    }
    // ------------------------------------------------------------------ deposit keys
    fn deposit_key() {
        let v = PublicKey(sym::bytes("key"));
        let id = H256(sym::bytes("id"));
        let id2 = H256(sym::bytes("id2"));
        let mut pre = vec![];
        pre.extend_from_slice(&v.0);
        pre.extend_from_slice(id.as_bytes());
        let c = sym::sha256(&pre);
        let want = sym::ec_mul(&v.0, &c);
        match v.new_deposit_public_key(id) {
            Ok(d) => sym::check(d.0 == want, "D = V * H(V || id)"),
            Err(_) => sym::check(false, "derivation succeeds"),
        }
        sym::expect("equal"); sym::expect("distinct");
        if let (Ok(a), Ok(b)) = (v.new_deposit_public_key(id), v.new_deposit_public_key(id2)) {
            if a == b { sym::reach("equal"); sym::check(id == id2, "distinct requests get distinct keys"); } else { sym::reach("distinct"); }
        }
    }
    // ------------------------------------------------------------------ rust-bitcoin
    fn compat_tx() {
        use bitcoin::compat::rust_bitcoin as rb;
        let (nin, nout) = (sym::param(0) as usize, sym::param(1) as usize);
        let (il, ol, wit) = (sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
        let version = sym::pick("version", 1, 2) as i32;
        let t = gen_tx(version, nin, nout, il, ol, wit);
        for i in &t.ins { sym::assume(i.prev != [0u8; 32]); }
        let r = to_real(&t);
        let f: rb::Transaction = match r.clone().try_into() { Ok(f) => f, Err(_) => { sym::check(false, "converts"); return; } };
        sym::check(f.version == version, "version");
        sym::check(f.lock_time.to_consensus_u32() == t.lock, "lock time");
        sym::check(f.input.len() == nin && f.output.len() == nout, "counts");
        for (a, b) in f.input.iter().zip(t.ins.iter()) {
            let h: &[u8] = a.previous_output.txid.as_ref();
            sym::check(h == b.prev, "previous hash");
            sym::check(a.previous_output.vout == b.index, "previous index");
            sym::check(a.script_sig.as_bytes() == &b.script[..], "input script");
            sym::check(a.sequence.0 == b.seq, "sequence");
            sym::check(a.witness.to_vec() == b.wit, "witness");
        }
        for (a, b) in f.output.iter().zip(t.outs.iter()) {
            sym::check(a.value == b.value as u64, "value");
            sym::check(a.script_pubkey.as_bytes() == &b.script[..], "output script");
        }
        sym::expect("back");
        match Transaction::try_from(f) {
            Ok(b) => { sym::reach("back"); sym::check(b == r, "round trip"); }
            Err(_) => sym::check(false, "converts back"),
        }
    }
    fn compat_address() {
        use bitcoin::compat::rust_bitcoin as rb;
        let a = match sym::param(0) {
            0 => Address::P2PKH(H160(sym::bytes("h"))),
            1 => Address::P2SH(H160(sym::bytes("h"))),
            2 => Address::P2WPKHv0(H160(sym::bytes("h"))),
            _ => Address::P2WSHv0(H256(sym::bytes("h"))),
        };
        match rb::address::Payload::try_from(a) {
            Ok(p) => {
                let (kind, h): (u64, Vec<u8>) = match &p {
                    rb::address::Payload::PubkeyHash(h) => (0, { let b: &[u8] = h.as_ref(); b.to_vec() }),
                    rb::address::Payload::ScriptHash(h) => (1, { let b: &[u8] = h.as_ref(); b.to_vec() }),
                    rb::address::Payload::WitnessProgram(w) => {
                        sym::check(w.version() == rb::address::WitnessVersion::V0, "witness version");
                        (if w.program().len() == 20 { 2 } else { 3 }, w.program().as_bytes().to_vec())
                    }
                    _ => (9, vec![]),
                };
                sym::check(kind == sym::param(0), "same kind of payload");
                let want: Vec<u8> = match a { Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h.0.to_vec(), Address::P2WSHv0(h) => h.0.to_vec() };
                sym::check(h == want, "same hash");
                sym::check(p.script_pubkey().as_bytes() == a.to_script_pub_key().as_bytes(), "same script");
                sym::check(matches!(Address::try_from(p), Ok(b) if b == a), "round trip");
            }
            Err(_) => sym::check(false, "converts"),
        }
        let s = a.to_script_pub_key();
        match rb::ScriptBuf::try_from(s.clone()) { Ok(b) => sym::check(b.as_bytes() == s.as_bytes(), "script bytes"), Err(_) => sym::check(false, "script converts") }
    }
    // ------------------------------------------------------------------ builders
    fn block_build() {
        let n = sym::param(0) as usize; // transactions besides the coinbase
        let a = Address::P2PKH(H160(sym::bytes("miner")));
        let (reward, height) = (sym::i64("reward"), sym::u32("height"));
        sym::assume(height >= 17 && height < 1 << 31);
        let prev = h256le("prev");
        let time = sym::u32("time");
        let mut b = BlockBuilder::new();
        b.with_previous_hash(prev).with_timestamp(time);
        let txs: Vec<Transaction> = (0..n).map(|k| simple_tx(k as u8)).collect();
        for t in &txs { b.add_transaction(t.clone()); }
        b.with_coinbase(&a, reward, height);
        let target = U256::max_value();
        match b.mine(target) {
            Ok(b) => {
                sym::reach("mined");
                sym::check(b.transactions.len() == n + 1, "count");
                for k in 0..n { sym::check(b.transactions[k + 1] == txs[k], "transactions in order"); }
                let c = &b.transactions[0];
                sym::check(c.is_coinbase() && c.inputs.len() == 1, "coinbase first");
                sym::check(c.inputs[0].source == TransactionInputSource::Coinbase(Some(height)), "coinbase commits to the height");
                sym::check(c.outputs.len() >= 1 && c.outputs[0].value == reward && c.outputs[0].script == a.to_script_pub_key(), "coinbase pays the miner");
                let ids: Vec<[u8; 32]> = b.transactions.iter().map(|t| t.tx_id().to_bytes_le()).collect();
                sym::check(b.header.merkle_root.to_bytes_le() == spec::merkle_root(&ids), "merkle root");
                sym::check(b.header.hash_prev_block == prev && b.header.timestamp == time && b.header.version == 4 && b.header.target == target, "header fields");
                match b.header.hash() { Ok(h) => sym::check(h == b.header.hash && h.as_u256() < target, "hash meets the target"), Err(_) => sym::check(false, "hash") }
            }
            Err(_) => sym::check(false, "mines"),
        }
        sym::expect("mined");
    }
    /// the size estimate is not below the exact size of the transactions it describes
    fn vsize() {
        use bitcoin::utils::*;
        let n = sym::u32("inputs");
        let (a, b, c) = (sym::u32("pkh"), sym::u32("sh"), sym::u32("wpkh"));
        sym::assume(n >= 1 && n <= 10_000 && a <= 20_000 && b <= 20_000 && c <= 20_000);
        let kind = sym::param(0);
        let (m, k) = if kind == 1 { (sym::pick("sigs", 1, 15) as u32, sym::pick("keys", 1, 15) as u32) } else { (1, 1) };
        sym::assume(m <= k);
        let cs = |v: u64| -> u64 { if v < 253 { 1 } else if v < 65536 { 3 } else { 5 } };
        let got = virtual_transaction_size(
            TransactionInputMetadata { count: n, script_type: match kind { 0 => InputType::P2PKH, 1 => InputType::P2SH { num_signatures: m, num_pubkeys: k }, _ => InputType::P2WPKHv0 } },
            TransactionOutputMetadata { num_p2pkh: a, num_p2sh: b, num_p2wpkh: c, num_op_return: 0 },
        ) as u64;
        let (n, m, k) = (n as u64, m as u64, k as u64);
        let outs = (a + b + c) as u64;
        let outsize = 34 * a as u64 + 32 * b as u64 + 31 * c as u64;
        let base = 8 + cs(n) + cs(outs) + outsize;
        // weight of each input with maximal signatures
        let redeem = 3 + 34 * k;
        let push = if redeem < 76 { 1 } else if redeem < 256 { 2 } else { 3 };
        let sig = 1 + m * 73 + push + redeem;
        let exact = match kind {
            0 => base + 148 * n,
            1 => base + n * (40 + cs(sig) + sig),
            _ => 0,
        };
        if kind < 2 {
            sym::check(got >= exact, "never below the exact size");
            sym::check(got <= exact + n + 4, "within one byte per input of the exact size");
        } else {
            // witness bytes count a quarter, rounded up
            let w = 4 * (base + 41 * n) + 107 * n + 2;
            sym::check(4 * got >= w, "at least the size without witness counts");
            sym::check(4 * got <= w + n + 12, "at most the exact size, rounded up");
        }
    }
    // ------------------------------------------------------------------ SCALE (storage and extrinsics)
    fn scale_address() {
        let kind = sym::param(0);
        let a = match kind {
            0 => Address::P2PKH(H160(sym::bytes("h"))),
            1 => Address::P2SH(H160(sym::bytes("h"))),
            2 => Address::P2WPKHv0(H160(sym::bytes("h"))),
            _ => Address::P2WSHv0(H256(sym::bytes("h"))),
        };
        let e = a.encode();
        let payload: Vec<u8> = match a { Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h.0.to_vec(), Address::P2WSHv0(h) => h.0.to_vec() };
        sym::check(e.len() == payload.len() + 1 && e[0] as u64 == kind && e[1..] == payload[..], "one tag byte and the hash");
        sym::check(e.len() <= Address::max_encoded_len(), "bounded");
        sym::check(matches!(Address::decode(&mut &e[..]), Ok(b) if b == a), "round trip");
        let z = match a { Address::P2WSHv0(h) => h == H256([0; 32]), Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h == H160([0; 20]) };
        sym::check(a.is_zero() == z, "is_zero");
    }
    fn scale_address_any() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        let mut r = &b[..];
        match Address::decode(&mut r) {
            Ok(a) => {
                sym::reach("accepted");
                let used = n - r.len();
                sym::check(b[0] < 4 && used == if b[0] == 3 { 33 } else { 21 }, "accepted exactly with a known tag and enough bytes");
                sym::check(a.encode()[..] == b[..used], "re-encodes to the same bytes");
            }
            Err(_) => sym::check(n == 0 || b[0] >= 4 || n < if b[0] == 3 { 33 } else { 21 }, "rejected only when malformed"),
        }
    }
    // parameters: inputs, outputs, input script, output script, witness items
    fn scale_tx() {
        let (nin, nout) = (sym::param(0) as usize, sym::param(1) as usize);
        let (il, ol, wit) = (sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
        let version = sym::i32("version");
        let t = gen_tx(version, nin, nout, il, ol, wit);
        let r = to_real(&t);
        let e = r.encode();
        let mut w: Vec<u8> = vec![];
        w.extend_from_slice(&version.to_le_bytes());
        spec::scale_len(nin, &mut w);
        for i in &t.ins {
            w.push(0);
            w.extend_from_slice(&i.prev);
            w.extend_from_slice(&i.index.to_le_bytes());
            spec::scale_len(i.script.len(), &mut w);
            w.extend_from_slice(&i.script);
            w.extend_from_slice(&i.seq.to_le_bytes());
            spec::scale_len(i.wit.len(), &mut w);
            for x in &i.wit { spec::scale_len(x.len(), &mut w); w.extend_from_slice(x); }
        }
        spec::scale_len(nout, &mut w);
        for o in &t.outs {
            w.extend_from_slice(&o.value.to_le_bytes());
            spec::scale_len(o.script.len(), &mut w);
            w.extend_from_slice(&o.script);
        }
        w.push((t.lock < 500_000_000) as u8);
        w.extend_from_slice(&t.lock.to_le_bytes());
        sym::check(e == w, "the stored form carries every field");
        let mut s = &e[..];
        match Transaction::decode(&mut s) {
            Ok(x) => { sym::reach("back"); sym::check(x == r && s.is_empty(), "round trip"); }
            Err(_) => sym::check(false, "decodes"),
        }
        sym::expect("back");
    }
    fn scale_proof() {
        let (nh, nf) = (sym::param(0) as usize, sym::param(1) as usize);
        let h = BlockHeader {
            merkle_root: h256le("root"), target: u256("target"), timestamp: sym::u32("time"), version: sym::i32("version"),
            hash: h256le("hash"), hash_prev_block: h256le("prev"), nonce: sym::u32("nonce"),
        };
        let e = h.encode();
        sym::check(e.len() == 140 && e.len() <= BlockHeader::max_encoded_len(), "size of a stored header");
        sym::check(matches!(BlockHeader::decode(&mut &e[..]), Ok(x) if x == h), "header round trip");
        let mut p = MerkleProof { block_header: h, flag_bits: vec![], transactions_count: sym::u32("count"), hashes: vec![] };
        for _ in 0..nf { p.flag_bits.push(sym::boolean("flag")); }
        for _ in 0..nh { p.hashes.push(h256le("h")); }
        let tx = simple_tx(0);
        let f = PartialTransactionProof { transaction: tx.clone(), tx_encoded_len: sym::u32("len"), merkle_proof: p.clone() };
        let full = FullTransactionProof { user_tx_proof: f.clone(), coinbase_proof: PartialTransactionProof { transaction: simple_tx(1), tx_encoded_len: sym::u32("len2"), merkle_proof: p.clone() } };
        let e = full.encode();
        let mut s = &e[..];
        match FullTransactionProof::decode(&mut s) {
            Ok(x) => { sym::reach("back"); sym::check(x == full && s.is_empty(), "proof round trip"); }
            Err(_) => sym::check(false, "decodes"),
        }
        sym::expect("back");
    }
    fn scale_tx_any() {
        let n = sym::param(0) as usize;
        let mut b = vec![];
        if sym::param(1) == 1 {
            b.extend_from_slice(&[2, 0, 0, 0, 4, 0]);
            b.extend_from_slice(&sym::bytes::<36>("outpoint"));
        }
        b.extend_from_slice(&sym::byte_vec("b", n));
        let mut r = &b[..];
        if let Ok(t) = Transaction::decode(&mut r) {
            sym::reach("accepted");
            let used = b.len() - r.len();
            sym::check(t.encode()[..] == b[..used], "re-encodes to the same bytes");
        }
    }
    // ------------------------------------------------------------------ hexadecimal forms
    fn hash_hex() {
        // every digit forks the parser, so a window of the bytes is symbolic and the rest fixed
        let (at, n) = (sym::param(0) as usize, sym::param(1) as usize);
        let mut b = [0u8; 32];
        for i in 0..32 { b[i] = (7 * i + 11) as u8; }
        for (k, x) in sym::byte_vec("w", n).into_iter().enumerate() { b[at + k] = x; }
        let h = H256Le::from_bytes_le(&b);
        let digit = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
        for big in [false, true] {
            let raw = if big { h.to_bytes_be() } else { h.to_bytes_le() };
            let s = if big { h.to_hex_be() } else { h.to_hex_le() };
            sym::check(s.len() == 64, "64 digits");
            let d = s.as_bytes();
            for i in 0..32 { sym::check(d[2 * i] == digit(raw[i] >> 4) && d[2 * i + 1] == digit(raw[i] & 15), "two digits per byte, in order"); }
            let back = if big { H256Le::from_hex_be(&s) } else { H256Le::from_hex_le(&s) };
            sym::check(back == h, "round trip");
        }
        let v = sym::u64("v");
        sym::check(H256Le::from(v).as_u256() == U256::from(v), "from u64");
        sym::check(H256Le::from(v as u32).as_u256() == U256::from(v as u32), "from u32");
        sym::check(H256Le::from(v as u8).as_u256() == U256::from(v as u8), "from u8");
        sym::check(H256Le::zero().is_zero(), "zero");
    }
    fn script_hex() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        let s = Script::from(b.clone());
        let x = s.as_hex();
        sym::check(x.len() == 2 * n && s.len() == n && s.is_empty() == (n == 0), "length");
        match Script::try_from(&x[..]) { Ok(t) => sym::check(t == s && t.as_bytes() == &b[..], "round trip"), Err(_) => sym::check(false, "parses") }
    }
    fn header_hex() {
        let (at, n) = (sym::param(0) as usize, sym::param(1) as usize);
        let mut b = [0u8; 80];
        for i in 0..80 { b[i] = (5 * i + 3) as u8; }
        b[72..76].copy_from_slice(&[0xff, 0xff, 0, 0x1d]);
        for (k, x) in sym::byte_vec("w", n).into_iter().enumerate() { b[at + k] = x; }
        let digit = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
        let mut x = vec![];
        for c in b { x.push(digit(c >> 4)); x.push(digit(c & 15)); }
        match (BlockHeader::from_hex(&x), BlockHeader::from_bytes(&b)) {
            (Ok(p), Ok(q)) => { sym::reach("ok"); sym::check(p == q, "same header"); }
            (Err(_), Err(_)) => sym::reach("err"),
            _ => sym::check(false, "same outcome"),
        }
        sym::expect("ok");
    }
    // ------------------------------------------------------------------ spending scripts
    fn script_sigs() {
        let n = sym::param(0) as usize;
        let key = PublicKey(sym::bytes("key"));
        let sig = sym::byte_vec("sig", n);
        let mut push = vec![];
        spec::compact_size(n as u64, &mut push);
        push.extend_from_slice(&sig);
        let mut redeem = key.0.to_vec();
        redeem.push(0xac);
        let mut want = push.clone();
        want.push(33);
        want.extend_from_slice(&key.0);
        sym::check(key.to_p2pkh_script_sig(sig.clone()).as_bytes() == &want[..], "signature and key");
        let mut w2 = vec![0u8];
        w2.extend_from_slice(&push);
        w2.push(34);
        w2.extend_from_slice(&redeem);
        sym::check(key.to_p2sh_script_sig(sig.clone()).as_bytes() == &w2[..], "signature and redeem script");
        let (seq, idx) = (sym::u32("seq"), sym::u32("idx"));
        let src = TransactionInputSource::FromOutput(h256le("prev"), idx);
        let mk = |k: u8| {
            let mut b = TransactionInputBuilder::new();
            b.with_source(src.clone()).with_sequence(seq);
            match k { 0 => b.with_p2pkh(&key, sig.clone()), 1 => b.with_p2sh(&key, sig.clone()), 2 => b.with_p2wpkh(&key, sig.clone()), _ => b.with_p2wsh(&key, sig.clone()) };
            b.build()
        };
        let none: Vec<Vec<u8>> = vec![];
        for (k, script, wit) in [(0, want.clone(), none.clone()), (1, w2.clone(), none), (2, vec![], vec![sig.clone(), key.0.to_vec()]), (3, vec![], vec![sig.clone(), redeem.clone()])] {
            let i = mk(k);
            sym::check(i.source == src && i.sequence == seq, "outpoint and sequence");
            sym::check(i.script == script, "unlocking script");
            sym::check(i.witness == wit, "witness");
        }
    }
}
