# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
OR, AM, CU, FE, PM, RW, ST = 'crates/oracle/src/lib.rs', 'crates/currency/src/amount.rs', 'crates/currency/src/lib.rs', 'crates/fee/src/lib.rs', 'crates/vault-registry/src/pool_manager.rs', 'crates/reward/src/lib.rs', 'crates/staking/src/lib.rs'
PROPS = [
 ('O01', 'The price is the median of the fresh values of the oracles',
  'At the start of every block, for every key, the price is the median (for an even number the average of the two middle values, rounded down) of the latest value of each oracle that is not older than the maximum delay, and there is no price exactly when there is no such value. Only accounts authorised by root at that moment can feed values; only root manages them; feeding never changes a price before the next block; a new exchange rate is announced to the vault registry.',
  ['inputs', 'histories'], 'all values, times, delays, in every stated history of feeds, blocks and authorisations', 'Staleness is a matter of when values arrive; the tests use fixed times and round prices.',
  [OR], [('begin_block, update_aggregate, median, is_outdated', OR), ('feed_values, insert/remove_authorized_oracle', OR)], ['Aggregate', 'get_price', 'OnExchangeRateChange']),
 ('O02', 'Currency conversions follow the price and never create value',
  'Converting wrapped tokens to a currency multiplies by its price, converting back divides, both rounded down; other pairs go through the wrapped token; the same currency is left unchanged. Without a price, with a zero price or on overflow the conversion fails instead of giving a number. Converting back and forth never gains and conversions are monotone.',
  ['inputs'], 'all amounts and prices (round trips and order: eight prices)', 'Rounding and overflow at the extremes are not sampled.',
  [OR, AM], [('convert, wrapped_to_collateral, collateral_to_wrapped', OR), ('checked_mul, checked_div', AM)], ['OracleApi::convert']),
 ('U01', 'Amounts are computed exactly and never mix currencies',
  'Sums, differences, products, quotients, ratios, comparisons and conversions of amounts are exact with the stated rounding for all 128-bit values; anything that overflows, divides by zero or mixes two currencies is an error. Transferring, locking, unlocking, burning and minting an amount moves exactly that amount when it is there, and otherwise changes nothing.',
  ['inputs'], 'all amounts, factors and balances', 'The arithmetic under every other pallet; tests use small numbers.',
  [AM, CU], [('math, conversions, actions', AM), ('get_free_balance, get_reserved_balance', CU)], ['Amount methods', 'Tokens balances']),
 ('U02', 'Fee rates are bounded and fees are computed exactly',
  'Only root changes a fee rate, one at a time, and never above the maximum; a vault open to nomination (and only it) sets its own commission, at most all of its rewards. Every fee and griefing collateral is the amount times its rate, rounded to the nearest unit (the redeem premium down), and never more than the amount.',
  ['inputs'], 'all rates, amounts and callers', 'Bounds and rounding are checked at a few values.',
  [FE, AM], [('set_*_fee, set_*_griefing_collateral, set_commission', FE), ('get_*_fee, get_*_griefing_collateral', FE)], ['Fee extrinsics', 'get_issue_fee', 'get_redeem_fee', 'get_punishment_fee', 'get_premium_redeem_fee']),
 ('U03', 'Fees reach vaults and nominators in proportion, and are all paid out',
  'Fees paid into the pool can always be withdrawn by those who earned them, never exceed what the pool holds, and all but rounding is paid out. Vaults share them in proportion to the tokens their collateral can secure (none if they do not accept issues); within a vault the operator first takes the commission, and the rest is shared in proportion to stake. Who has no stake gets nothing. This holds across deposits, withdrawals, commissions, thresholds, slashing, liquidation and refunds to nominators.',
  ['inputs', 'histories'], 'all amounts in every stated history', 'Three chained reward pools with rounding at every level; the tests check each with mocks.',
  [FE, PM, RW, ST], [('distribute_rewards, distribute_vault_rewards, withdraw_vault_rewards', FE), ('PoolManager::update_reward_stake', PM)], ['Fee::withdraw_rewards', 'balance of the fee pool']),
]
