# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
F = 'crates/bitcoin/src/'
PROPS = [
 ('C01', 'Bitcoin variable-length integers are canonical and decode exactly',
  'Every element count and length is written in the one canonical (shortest) Bitcoin CompactSize form and reads back as the same number, consuming exactly the bytes written. Decoding accepts a buffer exactly when it contains the bytes its prefix announces, and yields the little-endian number in them.',
  ['inputs'], 'all 64-bit lengths; all byte buffers up to the stated size',
  'The tests encode four values; the boundaries 0xfc/0xfd, 0xffff/0x10000, 0xffffffff/0x100000000 are not among them.',
  [F + 'formatter.rs', F + 'parser.rs', F + 'types.rs'], [('TryFormat for CompactUint', F + 'formatter.rs'), ('parse_compact_uint', F + 'parser.rs')], ['TryFormat for Vec<T>', 'parse_compact_uint']),
 ('C02', 'Parsers of untrusted Bitcoin data never crash',
  'Parsing a transaction, a block header or a merkle proof from arbitrary bytes returns either a value or an error: it never panics, overflows, reads out of bounds or fails to terminate. What is accepted respects the format limits: supported versions, at most 100 bytes of coinbase script, at most 10,000 bytes of output script, coinbase inputs exactly for a zero previous hash with index 0xffffffff, headers of exactly 80 bytes.',
  ['inputs'], 'all byte strings up to the stated lengths',
  'The tests parse about a dozen well-formed samples; arbitrary and truncated strings are not sampled.',
  [F + 'parser.rs', F + 'merkle.rs', F + 'types.rs'], [('BytesParser', F + 'parser.rs'), ('parse_transaction_input', F + 'parser.rs'), ('MerkleProof::parse', F + 'merkle.rs')], ['parse_transaction', 'BlockHeader::from_bytes', 'parse_block_header', 'MerkleProof::parse']),
 ('C03', 'Transactions survive serialisation unchanged',
  'A well-formed transaction, with or without witness data, parses to exactly the fields its Bitcoin encoding carries and formats back to exactly the same bytes; the same transaction assembled with the builder is equal to the parsed one. Whatever bytes are accepted as a transaction with at least one non-coinbase input, formatting the result and parsing it again yields the same transaction, in no more bytes.',
  ['inputs'], 'all field values of the stated transaction shapes; all byte strings of the stated lengths',
  'Round trips are tested on a handful of mainnet samples, so lengths, counts, witness layouts, lock times and signed values at boundaries are not covered.',
  [F + 'formatter.rs', F + 'parser.rs', F + 'types.rs'], [('TryFormat for Transaction', F + 'formatter.rs'), ('Parsable for Transaction', F + 'parser.rs'), ('TransactionBuilder', F + 'types.rs')], ['parse_transaction', 'Transaction::try_format']),
 ('C04', 'Transaction ids commit to every field except the witness',
  'The id of a transaction is the double SHA-256 of its witness-free Bitcoin encoding, so two transactions have the same id only if they agree on version, inputs, outputs and lock time, and witness data never changes it; the full hash covers the witness too. Computing the id under a length bound gives the same id exactly when the witness-free encoding fits the bound and an error otherwise, and the reported size is the size of that encoding.',
  ['inputs'], 'all transactions of the stated shapes, all bounds',
  'Tests compare three sample ids and one bound.',
  [F + 'types.rs', F + 'formatter.rs'], [('Transaction::tx_id_bounded', F + 'types.rs'), ('BoundedWriter', F + 'formatter.rs')], ['Transaction::tx_id', 'Transaction::tx_id_bounded', 'Transaction::hash', 'Transaction::size_no_witness']),
 ('C05', 'Block headers parse exactly and their hash covers all 80 bytes',
  'A header parses to exactly the six fields of its 80 bytes, its hash is the double SHA-256 of those bytes, and it is rejected exactly when its target encoding is negative or overflows. Formatting it reproduces the bytes whenever the target is canonically encoded; recomputing the hash depends on every header field and on nothing else, and versions below 4 are reported as unsupported.',
  ['inputs'], 'all 80-byte strings, all header values',
  'Two sample headers are tested.',
  [F + 'parser.rs', F + 'formatter.rs', F + 'types.rs'], [('parse_block_header', F + 'parser.rs'), ('BlockHeader::hash/update_hash/ensure_version', F + 'types.rs')], ['BlockHeader::from_bytes', 'BlockHeader::hash', 'BlockHeader::ensure_version']),
 ('C06', 'Compact proof-of-work targets decode and encode like Bitcoin Core',
  'Every 32-bit compact target decodes to the 256-bit number Bitcoin Core assigns to it, and is refused exactly when Bitcoin Core flags it negative or overflowing. Every 256-bit target encodes to the compact form Bitcoin Core produces; decoding that never yields more than the original, and encoding it again changes nothing.',
  ['inputs'], 'all 2^32 encodings and all 2^256 targets',
  'The tests check some twenty values.',
  [F + 'math.rs'], [('SetCompact', F + 'math.rs'), ('GetCompact', F + 'math.rs')], ['U256::set_compact', 'U256::get_compact']),
 ('C07', 'The difficulty adjustment is Bitcoin\'s',
  'The target required after a retarget period is the previous target multiplied by the time the period took, the time being clamped to between a quarter and four times two weeks, divided by two weeks, rounded down and capped at the maximum target, in compact form. Times that run backwards count as the minimum, and no input within range makes the computation fail.',
  ['inputs'], 'all targets in compact form and all pairs of 32-bit block times, within the stated combinations',
  'Five historical retargets are tested.',
  [F + 'pow.rs', F + 'math.rs'], [('calculate_next_work_required', F + 'pow.rs')], ['calculate_next_work_required']),
 ('C08', 'A merkle proof never proves a transaction that is not in the block',
  'If verifying a partial merkle proof yields the merkle root of a block, then the transaction whose id it reports is one of that block\'s transactions, at the reported position when the claimed transaction count is right, whatever hashes, flags and count the proof contains. Proofs are accepted exactly when Bitcoin Core\'s partial-merkle-tree traversal accepts them and the matched leaf is the claimed transaction, with the same root and position.',
  ['inputs'], 'all proof contents for the stated tree, hash-list and flag-list sizes',
  'Tests verify a few honest proofs; forged flag bits, hash lists and counts are what an attacker controls.',
  [F + 'merkle.rs'], [('PartialTransactionProof::verify_proof', F + 'merkle.rs'), ('MerkleProof::traverse_and_extract', F + 'merkle.rs')], ['PartialTransactionProof::verify_proof']),
 ('C09', 'Merkle roots and proofs built for a block are right for every transaction',
  'The merkle root computed for a list of transactions is Bitcoin\'s (odd levels paired with themselves), and the tree height and level widths are the least powers and ceilings. For every transaction of a block the proof built for it verifies against that root, with the right position, block hash and transaction, and does not verify for any other transaction. A mined block carries its coinbase first, all transactions in order, their root, and a hash that meets the target.',
  ['inputs'], 'all leaf values, every position, the stated block sizes; all counts up to 16,666 for the geometry',
  'Tests use one block of each of two sizes.',
  [F + 'merkle.rs', F + 'types.rs', F + 'utils.rs'], [('MerkleTree::compute_root', F + 'merkle.rs'), ('Block::merkle_proof', F + 'types.rs'), ('traverse_and_build', F + 'merkle.rs')], ['MerkleTree::compute_root', 'Block::merkle_proof', 'BlockBuilder::mine']),
 ('C10', 'Merkle proofs survive their wire format',
  'Formatting a merkle proof and parsing the result gives back the block header, the transaction count, the hashes and the flag bits (padded with zeros to whole bytes), in exactly the size Bitcoin\'s merkle-block layout prescribes.',
  ['inputs'], 'all proof contents of the stated sizes',
  'Two samples are tested.',
  [F + 'formatter.rs', F + 'merkle.rs', F + 'parser.rs'], [('TryFormat for MerkleProof', F + 'formatter.rs'), ('MerkleProof::parse', F + 'merkle.rs')], ['MerkleProof::try_format', 'MerkleProof::parse']),
 ('C11', 'Addresses and output scripts correspond one to one',
  'An output script is recognised as pay-to-pubkey-hash, pay-to-script-hash, or version 0 witness pubkey or script hash exactly when it has that form byte for byte, and then yields exactly the hash it contains; every other script yields an error. Turning an address into its script and back gives the same address, distinct addresses have distinct scripts, and payment outputs carry the script of the address.',
  ['inputs'], 'all scripts of the stated lengths and all addresses',
  'Tests have one sample per address kind and do not try near-misses.',
  [F + 'address.rs', F + 'script.rs', F + 'types.rs'], [('Address::from_script_pub_key/to_script_pub_key', F + 'address.rs'), ('Script::is_*', F + 'script.rs')], ['Address', 'TransactionOutput::extract_address', 'TransactionOutput::payment']),
 ('C12', 'OP_RETURN payloads are extracted exactly',
  'A script yields an OP_RETURN payload exactly when it is OP_RETURN followed by one length byte and that many bytes, within the 83-byte limit, and the payload is precisely those bytes. A payload placed in an OP_RETURN output is recovered unchanged whenever the script is within the limit, and refused when it is not.',
  ['inputs'], 'all scripts and payloads of the stated lengths',
  'Tests use single 32-byte payloads.',
  [F + 'script.rs', F + 'types.rs'], [('Script::extract_op_return_data', F + 'script.rs'), ('Script::op_return', F + 'script.rs')], ['Script::extract_op_return_data', 'TransactionOutput::op_return']),
 ('C13', 'Coinbase transactions commit to their height as BIP34 prescribes',
  'The coinbase input of a version 2 transaction carries the block height as a minimally encoded, positive, little-endian script number, its script length covers that push, and parsing the transaction recovers the same height and the same transaction.',
  ['inputs'], 'all heights below 2^31 and all extra script contents of the stated lengths',
  'Tests use a few heights; sign-bit padding needs heights such as 128, 32768 or 8388608.',
  [F + 'script.rs', F + 'formatter.rs', F + 'parser.rs', F + 'types.rs'], [('Script::height', F + 'script.rs'), ('TryFormat for TransactionInput', F + 'formatter.rs')], ['Transaction::try_format', 'parse_transaction']),
 ('C14', 'Hashes and sizes convert without loss between representations',
  'A block or transaction hash converts between little-endian and big-endian bytes by exact reversal, compares equal to a big-endian hash exactly when they are the same value, and as a number is ordered by its most significant byte first. Rounded-up logarithms in base 2 and 256 are the least exponents whose power is at least the value.',
  ['inputs'], 'all pairs of 32-byte hashes, all 64-bit and 256-bit values',
  'A few constants are tested.',
  [F + 'types.rs', F + 'utils.rs'], [('H256Le', F + 'types.rs'), ('log2, log256', F + 'utils.rs')], ['H256Le', 'log2', 'log256']),
 ('C15', 'Deposit keys are derived from vault key and request as specified',
  'The deposit key of a request is the vault\'s public key multiplied by the SHA-256 of that key followed by the request id. Different requests of a vault therefore never share a deposit key.',
  ['inputs'], 'all public keys and request ids',
  'One derivation is tested against constants, in a test that does not run here.',
  [F + 'address.rs'], [('PublicKey::new_deposit_public_key', F + 'address.rs')], ['PublicKey::new_deposit_public_key']),
 ('C16', 'Conversion to and from rust-bitcoin types loses nothing',
  'A transaction converted to the rust-bitcoin library has the same version, lock time, outpoints, scripts, sequences, witnesses and output values there, and converts back to an equal transaction. Addresses convert to the payload of the same kind with the same hash and back, and scripts to the same bytes.',
  ['inputs'], 'all contents of the stated transaction shapes, all addresses',
  'One transaction and one address are tested.',
  [F + 'compat.rs'], [('impl_bidirectional_conversions', F + 'compat.rs')], ['TryFrom conversions']),
 ('C17', 'Transaction size estimates do not undercount',
  'For transactions spending pay-to-pubkey-hash or m-of-n pay-to-script-hash outputs to standard outputs, the estimated virtual size is never below the exact size with maximal signatures, and exceeds it by at most a few bytes. For witness pubkey-hash inputs it is at least the weight without the witness item counts, and at most the exact virtual size.',
  ['inputs', 'configurations'], 'all input and output counts and signature thresholds up to the stated limits',
  'Five combinations are tested.',
  [F + 'utils.rs'], [('virtual_transaction_size', F + 'utils.rs')], ['virtual_transaction_size']),
]
TECH = 'bounded symbolic execution of LLVM IR compiled from the real sources, decided by z3/cvc5'
