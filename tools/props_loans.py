# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
LN, IN, RM, LT = 'crates/loans/src/lib.rs', 'crates/loans/src/interest.rs', 'crates/loans/src/rate_model.rs', 'crates/loans/src/lend_token.rs'
PROPS = [
 ('L01', 'Lending keeps exact books and lend tokens never lose worth',
  'Depositing, redeeming, borrowing, repaying, moving collateral, sending lend tokens and changing reserves move exactly the amounts they state between the account and the market, at the market\'s rate, and touch nobody else. Every lend token in circulation is held by someone; collateral is exactly the locked lend tokens; lend tokens received by an account that uses them as collateral join it. The recorded total debt is the sum of all debts up to rounding and never more; reserves are always covered by cash and debt. No operation, and no passing of time, lowers what a lend token is worth. A refused operation changes nothing.',
  ['inputs', 'histories'], 'all amounts in every stated history of lenders and borrowers', 'Rounding and ordering over two markets; the tests use round amounts in one order.',
  [LN, IN, LT], [('do_mint, do_redeem, do_borrow, do_repay_borrow, do_lock, deposit_all_collateral', LN), ('exchange rate, total borrows', IN), ('Amount to/from lend tokens', LT)], ['Tokens balances', 'TotalBorrows', 'AccountBorrows', 'AccountDeposits', 'ExchangeRate', 'TotalReserves']),
 ('L02', 'Loans stay covered, within caps and never from the reserves',
  'Borrowing, withdrawing collateral and redeeming lend tokens used as collateral are refused whenever the debt, with all interest up to that moment, would exceed the collateral discounted by its factor at current prices; borrowing and deposits respect the caps; neither loans nor redemptions pay out the reserves. Whatever respects these limits is accepted: a covered loan, a redemption while there is cash, a repayment of any part of a debt.',
  ['inputs', 'histories'], 'all amounts in every stated history of two borrowers, price changes and interest', 'The bound is between amounts in two currencies at two indexes; tests probe single points.',
  [LN], [('borrow_allowed, ensure_collateral, collateral_asset_value, total_borrowed_value', LN), ('ensure_enough_cash, ensure_under_supply_cap, ensure_under_borrow_cap', LN)], ['borrow', 'redeem', 'withdraw_all_collateral', 'get_account_liquidity']),
 ('L03', 'Only positions past their threshold are liquidated, and exactly so',
  'A liquidation succeeds only if the debt with interest exceeds the collateral at the liquidation threshold, repays at most the close factor of the debt, and moves exactly: the repayment from the liquidator into the market, collateral worth the repayment plus the incentive from the borrower, the incentive reserve\'s share to the reserve and the rest to the liquidator. A liquidation within these limits is accepted. Nothing else of the borrower is touched.',
  ['inputs', 'histories'], 'all debts, collaterals and repayments in every stated history', 'Depends on prices, interest and two roundings at once.',
  [LN], [('do_liquidate_borrow, liquidate_borrow_allowed, liquidated_transfer', LN)], ['liquidate_borrow', 'AccountDeposits', 'AccountBorrows']),
 ('L04', 'Interest and market parameters are sound',
  'Only governance opens, activates or changes a market, once per asset and lend token and only with sound parameters. A rate model is accepted exactly if its rates rise within the bounds; then every utilisation has a rate, rising from the base to the full rate through the jump. Interest compounds every second at that rate: the index, the total debt, every borrower\'s debt, the reserves\' share and the exchange rate follow from it, and it is charged once. Lenders never earn more than borrowers pay.',
  ['inputs'], 'all parameters, callers, utilisations, and market states', 'Parameter checks and fixed-point compounding have corner cases at zero and one.',
  [LN, IN, RM], [('add_market, update_market, activate_market', LN), ('accrue_interest, calculate_exchange_rate, utilization_ratio', IN), ('check_model, get_borrow_rate, get_supply_rate', RM)], ['Markets', 'BorrowIndex', 'ExchangeRate', 'TotalReserves']),
 ('L05', 'Lending incentives are paid in proportion and never twice',
  'Only governance sets reward speeds. Over every block the emission of a market is shared among its lenders in proportion to their lend tokens and among its borrowers in proportion to their debts; each account can claim its share, no more and (up to rounding) no less, whatever happens to the position in between: deposits, loans, repayments, transfers, liquidation. Together no more is paid than was emitted, and a claim touches nothing else.',
  ['inputs', 'histories'], 'all positions and speeds in every stated history', 'Every change of a position must first settle the rewards of everyone it touches.',
  [LN, 'crates/loans/src/farming.rs'], [('update_reward_supply_index, update_reward_borrow_index, distribute_supplier_reward, distribute_borrower_reward, collect_market_reward', 'crates/loans/src/farming.rs'), ('settlement before every change', LN)], ['claim_reward', 'RewardAccrued']),
]
