# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
F = 'crates/bitcoin/src/'
PR, SW = 'primitives/src/lib.rs', 'contracts/btc_swap/lib.rs'
PROPS = [
 ('C18', 'Bitcoin data survives the SCALE encoding of storage and extrinsics',
  'Addresses, transactions, headers and payment proofs encode to SCALE bytes that carry every field in order and decode to the same value. Decoding arbitrary bytes as an address or transaction never panics; what it accepts re-encodes to the very bytes consumed, and an address is accepted exactly with a known tag and enough bytes. The all-zero address is recognised as such.',
  ['inputs'], 'all addresses, all transactions and proofs of the stated shapes, all byte strings of the stated lengths',
  'No test encodes these values.',
  [F + 'types.rs', F + 'address.rs', F + 'script.rs', F + 'merkle.rs'], [('derive(Encode, Decode)', F + 'types.rs'), ('Address', F + 'address.rs')], ['Encode/Decode of Address, Transaction, BlockHeader, FullTransactionProof']),
 ('C19', 'Hexadecimal forms of hashes, scripts and headers are exact',
  'The hexadecimal form of a hash has 64 lower-case digits, two per byte, in the requested byte order, and parses back to the same hash; the same holds for scripts; a header parsed from hexadecimal is the header parsed from the bytes. A hash made from an integer has that numeric value.',
  ['inputs'], 'all values of the stated byte windows',
  'Tests convert a few sample hashes.',
  [F + 'types.rs', F + 'script.rs'], [('H256Le::from_hex_*/to_hex_*', F + 'types.rs'), ('Script::as_hex', F + 'script.rs')], ['H256Le', 'Script', 'BlockHeader::from_hex']),
 ('C20', 'Unlocking scripts and witnesses have the standard layout',
  'For each of the four payment kinds, the transaction input built for a key and signature carries exactly the standard unlocking data: signature and key pushed in the script (P2PKH), a zero, the signature and the one-key redeem script (P2SH), or nothing in the script and signature plus key or redeem script as witness (P2WPKH, P2WSH); outpoint and sequence are untouched.',
  ['inputs'], 'all keys and outpoints, all signatures of the stated lengths',
  'Tests use one key and one signature.',
  [F + 'address.rs', F + 'types.rs', F + 'script.rs'], [('to_p2pkh_script_sig/to_p2sh_script_sig', F + 'address.rs'), ('TransactionInputBuilder', F + 'types.rs')], ['TransactionInputBuilder', 'PublicKey::to_p2pkh_script_sig', 'PublicKey::to_p2sh_script_sig']),
 ('P01', 'Every currency has one encoding, one number and one name',
  'Currency ids (tokens, foreign assets, lend tokens, pool tokens) encode to the published SCALE form within the declared maximum length, decode to the same id, and two ids are equal exactly when their encodings are; bytes are accepted exactly when well-formed, and re-encode to themselves. Token numbers, symbols, decimals and unit amounts follow the published currency table in every conversion. Vault ids keep account, collateral and wrapped currency.',
  ['inputs'], 'all currencies, all byte strings that could be one, all token numbers and names',
  'Few of these conversions are tested at all.',
  [PR], [('create_currency_id!', PR), ('CurrencyId, LpToken', PR), ('VaultId', PR)], ['CurrencyId', 'TokenSymbol', 'VaultId']),
 ('P02', 'Pool pair currencies name their two members, in a canonical order',
  'Joining two currencies gives a pair exactly when both may be members of a pair (tokens, foreign assets and stable-pool tokens), and the pair names those two in order. Sorting a pair makes it independent of the order of its members, keeps the members, is idempotent, and leaves all other currencies alone; members are ordered by kind, then number.',
  ['inputs'], 'all pairs of currencies',
  'One pair is tested.',
  [PR], [('join_lp_token, sort', PR), ('From<LpToken> for CurrencyId', PR)], ['CurrencyId::join_lp_token', 'CurrencyId::sort']),
 ('P03', 'Fixed-point conversions are exact or refused',
  'A balance converts to a fixed-point number exactly when that is representable, then has exactly that value, and converts back unchanged. Truncating a fixed-point number yields its integer part, rounded towards zero, for every signed and unsigned number.',
  ['inputs'], 'all 128-bit values', 'A handful of values is tested.',
  [PR], [('BalanceToFixedPoint, TruncateFixedPointToInt', PR)], ['to_fixed', 'truncate_to_inner']),
 ('W01', 'A swap pays out only for the verified Bitcoin payment it asked for',
  'Executing a swap order succeeds exactly when the order exists and the runtime confirms a payment of at least the asked amount to the Bitcoin address recorded in the order; the caller then gets exactly the locked amount and nothing else leaves the contract. Anything else traps. An order must ask for a positive amount.',
  ['inputs', 'environment answers'], 'all orders and all answers of the runtime', 'The contract has no tests.',
  [SW], [('create_trade, execute_trade', SW)], ['BtcSwap::execute_trade']),
 ('W02', 'A swap order is paid out at most once',
  'An order can be executed only once: executing it again traps until its owner creates a new one. The contract always holds at least the amounts locked by the open orders, so one order can never be paid from another.',
  ['inputs', 'histories'], 'all amounts, the stated histories', 'The contract has no tests.',
  [SW], [('execute_trade', SW)], ['BtcSwap::create_trade', 'BtcSwap::execute_trade']),
 ('W03', 'The example contract flips once per call',
  'The hello_world contract starts with the given value (false by default) and its value is inverted exactly once by every flip and by nothing else.',
  ['inputs', 'histories'], 'all initial values and call sequences of the stated length', 'Two calls are tested.',
  ['contracts/hello_world/lib.rs'], [('Flipper', 'contracts/hello_world/lib.rs')], ['Flipper::get']),
]
