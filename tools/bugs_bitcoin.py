F = 'crates/bitcoin/src/'
PRE = '#![allow(unused_imports)]\nuse bitcoin::types::*; use bitcoin::merkle::*; use bitcoin::parser::*; use bitcoin::formatter::TryFormat; use bitcoin::*;\n'
BUGS = {
 'b01-compact-encode-boundary': dict(property='C01', kind='btc',
   edits=[(F + 'formatter.rs', '        if self.value < 0xfd {', '        if self.value <= 0xfd {')],
   needs='a vector or script of exactly 253 elements', breaks='253 is written as a single byte 0xfd, which announces a two-byte integer',
   demo=PRE + '''fn main() {
    let mut o: Vec<u8> = vec![];
    Script::from(vec![7u8; 253]).try_format(&mut o).unwrap();
    assert_eq!(&o[..3], &[0xfd, 0xfd, 0]);
}'''),
 'b02-header-length': dict(property='C02', kind='btc',
   edits=[(F + 'parser.rs', '''                if position + $bytes > raw_bytes.len() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&raw_bytes[position..position + $bytes]);''', '''                let rest = raw_bytes.get(position..).ok_or(Error::EndOfFile)?;
                if rest.is_empty() {
                    return Err(Error::EndOfFile);
                }
                let mut value_bytes: [u8; $bytes] = Default::default();
                value_bytes.copy_from_slice(&rest[..$bytes]);''')],
   needs='input that ends inside an integer field', breaks='a truncated transaction makes the parser panic instead of returning an error',
   demo=PRE + '''fn main() {
    assert!(parse_transaction(&[1, 0]).is_err());
}'''),
 'b03-witness-index': dict(property='C03', kind='btc',
   edits=[(F + 'formatter.rs', '''            for input in self.inputs.iter() {
                input.witness.try_format(w)?;
            }''', '''            for input in self.inputs.iter().filter(|input| !input.witness.is_empty()) {
                input.witness.try_format(w)?;
            }''')],
   needs='a transaction mixing inputs with and without witness data', breaks='the empty witness of a non-witness input is left out, so the bytes no longer parse to the same transaction',
   demo=PRE + '''fn main() {
    let mut b = TransactionBuilder::new();
    b.with_version(2);
    for k in 0..2u8 {
        let mut x = TransactionInputBuilder::new();
        x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[k + 1; 32]), 0));
        if k == 1 { x.add_witness(&[1, 2, 3]); }
        b.add_input(x.build());
    }
    b.add_output(TransactionOutput { value: 5, script: Script::from(vec![1]) });
    let t = b.build();
    let mut o: Vec<u8> = vec![];
    t.try_format(&mut o).unwrap();
    assert_eq!(parse_transaction(&o).unwrap(), t);
}'''),
 'b04-bounded-writer': dict(property='C04', kind='btc',
   edits=[(F + 'types.rs', 'let mut bytes = BoundedWriter::new(length_bound);', 'let mut bytes = BoundedWriter::new(length_bound.saturating_add(1));')],
   needs='a declared length one byte below the real one', breaks='a transaction one byte longer than its declared (and paid for) length is accepted',
   demo=PRE + '''fn main() {
    let mut b = TransactionBuilder::new();
    let mut x = TransactionInputBuilder::new();
    x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[1; 32]), 0));
    b.add_input(x.build());
    let t = b.build();
    assert!(t.tx_id_bounded(t.size_no_witness() as u32 - 1).is_err());
}'''),
 'b05-header-target-format': dict(property='C05', kind='btc',
   edits=[(F + 'types.rs', '''    pub fn ensure_version(&self) -> Result<(), Error> {
        if self.version < 4 {''', '''    pub fn ensure_version(&self) -> Result<(), Error> {
        if (self.version as u32) < 4 {''')],
   needs='a header with a negative version', breaks='negative header versions are accepted',
   demo=PRE + '''fn main() {
    let h = BlockHeader { version: -1, ..Default::default() };
    assert!(h.ensure_version().is_err());
}'''),
 'b06-compact-sign': dict(property='C06', kind='btc',
   edits=[(F + 'math.rs', 'word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 32))', 'word != 0 && ((size > 34) || (word > 0xff && size > 33) || (word > 0xffff && size > 33))')],
   needs='an encoding with exponent 33 and a three-byte mantissa', breaks='an overflowing target is accepted and decodes to a truncated number',
   demo=PRE + '''fn main() {
    assert!(primitive_types::U256::set_compact(0x21010000).is_none());
}'''),
 'b07-retarget-backwards': dict(property='C07', kind='btc',
   edits=[(F + 'pow.rs', 'last_block_time.saturating_sub(first_block_time)', 'last_block_time.wrapping_sub(first_block_time)')],
   needs='a period whose last block is timestamped before its first', breaks='the difficulty falls by the maximum factor instead of rising',
   demo=PRE + '''fn main() {
    let t = primitive_types::U256::set_compact(0x1c05a3f4).unwrap();
    let a = bitcoin::pow::calculate_next_work_required(t, 1_279_008_237, 1_279_008_236).unwrap();
    let b = bitcoin::pow::calculate_next_work_required(t, 1_279_008_237, 1_279_008_238).unwrap();
    assert_eq!(a, b);
}'''),
 'b08-merkle-hashes-used': dict(property='C08', kind='btc',
   edits=[(F + 'merkle.rs', '''            if height == 0 && parent_of_hash {
                // in''', '''            if parent_of_hash || (height == 0 && traversal.hashes_used == 0) {
                // in''')],
   needs='a proof in which the first leaf is included unmatched', breaks='a leaf that is only a neighbour counts as matched, so a proof for nothing is accepted',
   demo=PRE + '''fn tx(k: u8) -> Transaction {
    let mut b = TransactionBuilder::new();
    let mut x = TransactionInputBuilder::new();
    x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[k; 32]), 0));
    b.add_input(x.build());
    b.build()
}
fn main() {
    let (a, b) = (tx(1), tx(2));
    let p = PartialTransactionProof { tx_encoded_len: a.size_no_witness() as u32, transaction: a.clone(),
        merkle_proof: MerkleProof { block_header: Default::default(), flag_bits: vec![true, false, false], transactions_count: 2, hashes: vec![a.tx_id(), b.tx_id()] } };
    assert!(p.verify_proof().is_err());
}'''),
 'b09-root-odd': dict(property='C09', kind='btc',
   edits=[(F + 'merkle.rs', 'while p < (pos + 1) << height && p < self.transactions_count {', 'while p < (pos + 1) << height && p + 1 < self.transactions_count.max(2) {')],
   needs='a proof for the last transaction of a block', breaks='the last transaction of a block cannot be proven',
   demo=PRE + '''fn tx(k: u8) -> Transaction {
    let mut b = TransactionBuilder::new();
    let mut x = TransactionInputBuilder::new();
    x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[k; 32]), 0));
    b.add_input(x.build());
    b.build()
}
fn main() {
    let txs = vec![tx(1), tx(2), tx(3)];
    let b = Block { header: Default::default(), transactions: txs.clone() };
    let p = b.merkle_proof(&[txs[2].tx_id()]).unwrap();
    let l = txs[2].size_no_witness() as u32;
    let r = PartialTransactionProof { transaction: txs[2].clone(), tx_encoded_len: l, merkle_proof: p }.verify_proof().unwrap();
    assert_eq!(r.transaction_position, 2);
}'''),
 'b10-flag-bits': dict(property='C10', kind='btc',
   edits=[(F + 'formatter.rs', 'for p in 0..self.flag_bits.len() {', 'for p in 0..self.flag_bits.len().min(len.saturating_mul(8).saturating_sub(1)) {')],
   needs='a full last byte of flag bits whose last bit is set', breaks='the last flag bit is lost',
   demo=PRE + '''fn main() {
    let p = MerkleProof { block_header: Default::default(), flag_bits: vec![true; 8], transactions_count: 5, hashes: vec![] };
    let mut o: Vec<u8> = vec![];
    p.try_format(&mut o).unwrap();
    assert_eq!(o.last(), Some(&255));
}'''),
 'b11-p2sh-tail': dict(property='C11', kind='btc',
   edits=[(F + 'address.rs', '&[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL] if', '&[OP_HASH_160, HASH160_SIZE_HEX, ref addr @ .., OP_EQUAL | OP_EQUAL_VERIFY] if')],
   needs='a script ending in OP_EQUALVERIFY instead of OP_EQUAL', breaks='an unspendable script is taken for a pay-to-script-hash address',
   demo=PRE + '''fn main() {
    let mut s = vec![0xa9u8, 0x14];
    s.extend_from_slice(&[7; 20]);
    s.push(0x88);
    assert!(Address::from_script_pub_key(&Script::from(s)).is_err());
}'''),
 'b12-op-return-limit': dict(property='C12', kind='btc',
   edits=[(F + 'script.rs', 'if output_script.len() > MAX_OPRETURN_SIZE {', 'if output_script.len() >= MAX_OPRETURN_SIZE {')],
   needs='a payload of exactly 81 bytes', breaks='the largest standard OP_RETURN is refused',
   demo=PRE + '''fn main() {
    let o = TransactionOutput::op_return(0, &[3u8; 81]);
    assert_eq!(o.script.extract_op_return_data(), Ok(vec![3u8; 81]));
}'''),
 'b13-height-sign': dict(property='C13', kind='btc',
   edits=[(F + 'script.rs', 'if (x & 0x80) != 0 {', 'if (x & 0x80) != 0 && height <= 0xffff {')],
   needs='a height of three bytes with its top bit set', breaks='the height is encoded as a negative script number',
   demo=PRE + '''fn main() {
    let mut b = TransactionBuilder::new();
    b.with_version(2);
    let mut x = TransactionInputBuilder::new();
    x.with_source(TransactionInputSource::Coinbase(Some(0x800012)));
    b.add_input(x.build());
    let mut o: Vec<u8> = vec![];
    b.build().try_format(&mut o).unwrap();
    assert_eq!(&o[42..47], &[4, 0x12, 0, 0x80, 0]);
}'''),
 'b14-log256': dict(property='C14', kind='btc',
   edits=[(F + 'types.rs', '''impl PartialEq<H256Le> for H256 {
    fn eq(&self, other: &H256Le) -> bool {
''', '''impl PartialEq<H256Le> for H256 {
    fn eq(&self, other: &H256Le) -> bool {
        if self.is_zero() {
            return true;
        }
''')],
   needs='comparison with the zero hash', breaks='the zero hash compares equal to every hash',
   demo=PRE + '''fn main() {
    assert!(primitive_types::H256::zero() != H256Le::from_bytes_le(&[3; 32]));
}'''),
 'b16-compat-locktime': dict(property='C16', kind='btc',
   edits=[(F + 'formatter.rs', 'LockTime::BlockHeight(b) | LockTime::Time(b) => b.try_format(w),', 'LockTime::BlockHeight(b) => b.try_format(w),\n            LockTime::Time(b) => b.max(&500_000_001).try_format(w),')],
   needs='a lock time at the threshold of 500,000,000', breaks='the lock time changes in conversion',
   demo=PRE + '''fn main() {
    let mut b = TransactionBuilder::new();
    let mut x = TransactionInputBuilder::new();
    x.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[1; 32]), 0));
    b.add_input(x.build());
    b.with_locktime(500_000_000);
    let f: bitcoin::compat::rust_bitcoin::Transaction = b.build().try_into().unwrap();
    assert_eq!(f.lock_time.to_consensus_u32(), 500_000_000);
}'''),
 'b17-vsize-pubkeys': dict(property='C17', kind='btc',
   edits=[(F + 'utils.rs', 'let input_size = 32 + 4 + var_int_size(script_sig_size) + script_sig_size + 4;', 'let input_size = 32 + 4 + var_int_size(redeem_script_size) + script_sig_size + 4;')],
   needs='a multisig whose redeem script is below 253 bytes and whose whole script is not', breaks='the size of such spends is underestimated by two bytes per input',
   demo=PRE + '''fn main() {
    use bitcoin::utils::*;
    let s = virtual_transaction_size(
        TransactionInputMetadata { count: 1, script_type: InputType::P2SH { num_signatures: 2, num_pubkeys: 3 } },
        TransactionOutputMetadata { num_p2pkh: 1, num_p2sh: 0, num_p2wpkh: 0, num_op_return: 0 });
    assert!(s >= 8 + 2 + 34 + 40 + 3 + 1 + 2 * 73 + 2 + 3 + 34 * 3, "{}", s);
}'''),
}
