# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
R, T, S = 'crates/btc-relay/src/lib.rs', 'crates/btc-relay/src/types.rs', 'crates/security/src/lib.rs'
PROPS = [
 ('B01', 'The relay follows the longest branch, whatever order headers arrive in',
  'Whatever tree of headers is submitted, in whatever order, the best block is the tip of the main chain; it moves to another branch exactly when that branch is ahead by the confirmation depth, however the branches are nested. Every stored header is recorded at one more than its parent\'s height and in exactly one chain; chains are linked, have a block at every height, are listed without gaps and sorted by height after the main chain; exactly the ancestors of the best block are on the main chain. A header is stored only if its parent is known, and only once; a refused header changes nothing.',
  ['inputs', 'histories'], 'all trees and arrival orders within the bounds', 'Tests build one or two forks; nested forks of equal height and repeated reorganisations are not tried.',
  [R], [('_store_block_header, reorganize_chains, swap_main_blockchain, insert_sorted', R)], ['BTCRelay::_store_block_header', 'Chains', 'ChainsIndex', 'ChainsHashes', 'BlockHeaders', 'BestBlock']),
 ('B02', 'Only settled main-chain blocks are confirmed',
  'A block is confirmed exactly when it is on the main chain, has the requested (or configured) number of confirmations, was stored long enough ago in active parachain blocks, and no other branch is within the confirmation depth of the best block. The relay counts as initialised once its first block is confirmed.',
  ['inputs', 'histories'], 'all trees, blocks, confirmation counts, ages and times within the bounds', 'The competing-branch condition depends on the order of many forks.',
  [R], [('verify_block_header_inclusion, check_bitcoin_confirmations, check_parachain_confirmations, ensure_no_ongoing_fork', R)], ['BTCRelay::verify_block_header_inclusion']),
 ('B03', 'Only headers with valid work and the right difficulty are stored',
  'A submitted header is stored exactly under the double hash of its content (whatever hash was claimed), only if that hash is below its target, its target is its parent\'s or, at each 2016th block, the retargeted one - on the main chain and on every branch -, its version is current and the fork bound is respected. It is stored as submitted.',
  ['inputs', 'histories'], 'all headers; period ends on nested branches', 'Tests use one real header; a branch crossing the end of a period is not tried.',
  [R], [('store_block_header, verify_block_header, compute_new_target, get_last_retarget_time', R)], ['BTCRelay::store_block_header']),
 ('B04', 'Bitcoin payments are recognised exactly',
  'A redeem or replace payment is accepted exactly when the transaction has one data output with zero value carrying the identifier, one or two payments to different addresses, and the one to the recipient has exactly the expected amount. The value of an issue payment is that of the (first) output to the deposit address.',
  ['inputs'], 'all transactions of the stated shapes', 'A few transactions are tested.',
  [R, T], [('OpReturnPaymentData', T), ('get_issue_payment', R)], ['BTCRelay::verify_and_validate_op_return_transaction', 'BTCRelay::get_and_verify_issue_payment']),
 ('B05', 'Requests expire only after their period on both chains',
  'A request has expired exactly when more active parachain blocks than its period have passed and the Bitcoin chain has grown by more than the corresponding number of blocks, rounded up. The active block count grows by one with every block while active and not otherwise, and only governance switches it.',
  ['inputs', 'histories'], 'all times, heights and periods', 'A few numbers are tested.',
  [R, S], [('has_request_expired, bitcoin_expiry_height', R), ('parachain_block_expired, increment_active_block', S)], ['BTCRelay::has_request_expired', 'Security::active_block_number']),
 ('B06', 'A transaction is included only with both proofs for a confirmed block',
  'A transaction is accepted as included exactly when its Merkle proof and the proof of a coinbase transaction at position 0 are both valid, lead to the same root for the same block and the same number of transactions, and that block is confirmed and has that root.',
  ['inputs'], 'all proofs within the bounds', 'The coinbase conditions defend against crafted trees that tests do not build.',
  [R], [('_verify_transaction_inclusion', R)], ['BTCRelay::_verify_transaction_inclusion']),
 ('B07', 'Identifiers of requests never repeat',
  'Two requests never get the same identifier, whoever makes them and whether or not they are in the same block.',
  ['inputs', 'histories'], 'all accounts, counters and parent hashes', 'A uniqueness claim over all inputs.',
  [S], [('get_secure_id, get_nonce', S)], ['Security::get_secure_id']),
]
