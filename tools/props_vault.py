# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
VR, NO, IS, RE, RP, FE = ['crates/%s/src/%s.rs' % (a, b) for a, b in (('vault-registry', 'lib'), ('nomination', 'lib'), ('issue', 'lib'), ('redeem', 'lib'), ('replace', 'lib'), ('fee', 'lib'))]
VT, PM, ST = 'crates/vault-registry/src/types.rs', 'crates/vault-registry/src/pool_manager.rs', 'crates/staking/src/lib.rs'
OV = ['inputs', 'histories']
Q = 'all amounts in every stated history of calls (each call dispatched transactionally, as the runtime does)'
PROPS = [
 ('V01', 'Every wrapped token is backed by tokens recorded on vaults',
  'After every call, the supply of the wrapped token equals the issued tokens recorded on all vaults plus the liquidation vault, and equals what the accounts hold. No vault has promised more tokens (being redeemed or offered for replacement) than it has issued, a liquidated vault has handed all of its tokens over, and the liquidation vault cannot promise more than it has.',
  OV, Q, 'Unit tests mock the neighbouring pallets; the sum over all vaults is never computed along a history.',
  [VR, VT, IS, RE, RP], [('RichVault::issue_tokens/redeem_tokens/decrease_*', VT), ('replace_tokens, liquidate_vault, redeem_tokens_liquidation', VR)], ['Tokens::total_issuance', 'Vaults', 'LiquidationVault']),
 ('V02', 'Vault collateral is conserved and matches the bookkeeping',
  'After every call, the recorded total collateral of a currency pair equals the backing collateral of all vaults plus the collateral held back from and taken over after liquidations; that collateral is really locked in the respective accounts, as is all griefing collateral; and no call creates or loses collateral. Collateral is held back after a liquidation only while tokens are being redeemed.',
  OV, Q, 'Collateral is recorded in four places (tokens, staking, totals, vault records) updated by different pallets.',
  [VR, VT, PM, NO, ST], [('PoolManager::deposit/withdraw/slash_collateral, kick_nominators', PM), ('transfer_funds, increase/decrease_total_backing_collateral', VR)], ['TotalUserVaultCollateral', 'Tokens balances', 'Staking::total_current_stake']),
 ('V03', 'Vault counters are exactly the sums over the open requests',
  'After every call, the tokens to be issued and to be redeemed and the active griefing collateral recorded on each vault (after its liquidation: on the liquidation vault) equal the sums over the open issue, redeem and replace requests, and the user\'s locked tokens and griefing collateral equal the sums over that user\'s open requests.',
  OV, Q, 'Each pallet keeps its own requests; tests check single steps with mocks.',
  [VR, VT, IS, RE, RP], [('try_increase_to_be_*, issue_tokens, redeem_tokens, cancel_*', VR)], ['Vaults', 'LiquidationVault', 'IssueRequests', 'RedeemRequests', 'ReplaceRequests']),
 ('V04', 'No call leaves a vault below its secure threshold by adding tokens',
  'Whenever a call adds tokens to a vault (requesting or reviving an issue, overpaying, accepting or reviving a replace, minting reimbursed tokens) or takes collateral out of it, and succeeds, the vault\'s collateral at the current price afterwards covers its issued and to-be-issued tokens at its secure threshold, taking a higher custom threshold into account.',
  OV, Q + ', at several prices', 'The threshold arithmetic is tested at a few round numbers.',
  [VR, VT, IS, RP, RE, NO], [('ensure_not_banned, try_increase_to_be_issued_tokens, is_allowed_to_withdraw_collateral', VR), ('issuable_tokens, get_secure_threshold', VT)], ['Issue::request_issue', 'Issue::execute_issue', 'VaultRegistry::withdraw_collateral', 'Replace::accept_replace', 'Redeem::mint_tokens_for_reimbursed_redeem']),
 ('V05', 'An issue mints what was paid for, once, to the right accounts',
  'An issue request reserves exactly the requested tokens and a fixed share of griefing collateral. It is executed at most once, never mints more than was paid, pays user and fee pool exactly, charges the vault, and releases griefing collateral except for the missing part of an underpayment, which only the requester may execute. It is cancelled only while open, by the requester or after expiry; collateral is slashed in proportion to the time elapsed, not if the vault was liquidated. Only active vaults that accept issues take requests.',
  OV, Q, 'Tests sample a few amounts and mock the vault registry.',
  [IS, VR, FE], [('_request_issue, _execute_issue, _cancel_issue', IS)], ['Issue::request_issue', 'Issue::execute_issue', 'Issue::cancel_issue']),
 ('V06', 'A redeem burns what was delivered, or compensates the user',
  'A redeem request locks exactly the user\'s tokens and pays out the amount less fixed fees. It is executed at most once and only by the exact payment to the stated address with the stated identifier; then the tokens are burned, the fee and any agreed premium are paid. After expiry only, the user chooses to keep the tokens with a punishment fee or to be reimbursed in collateral; the vault is slashed by exactly that and banned; reimbursed tokens go to the vault once it can secure them, at most once. No premium is paid above the secure threshold.',
  OV, Q, 'Tests sample amounts and mock neighbouring pallets.',
  [RE, VR, VT, FE], [('_request_redeem, _execute_redeem, _cancel_redeem, _mint_tokens_for_reimbursed_redeem, self_redeem', RE)], ['Redeem extrinsics']),
 ('V07', 'A replace moves exactly the tokens from the old to the new vault',
  'A vault can offer only free tokens, locking a fixed share of griefing collateral; withdrawing or accepting releases or activates collateral in proportion. Accepting reserves the tokens with both vaults and locks the offered collateral. Only the exact payment executes the replace, once, moving the tokens and returning the griefing collateral if it was not slashed; after expiry an open request is cancelled and its griefing collateral goes to the new vault.',
  OV, Q, 'Tests sample amounts and mock the vault registry.',
  [RP, VR, VT], [('_request_replace, _accept_replace, _execute_replace, _cancel_replace, _withdraw_replace_request', RP), ('replace_tokens, cancel_replace_tokens', VR)], ['Replace extrinsics']),
 ('V08', 'Exactly undercollateralised vaults are liquidated, and fairly',
  'A vault can be liquidated by report exactly when its collateral is below the liquidation threshold (up to one unit of rounding), and once. Liquidation takes all collateral up to the threshold, moves all tokens to the liquidation vault, and holds back the share for tokens being redeemed, which goes to the vault that still delivers, to the reimbursed user, or to the liquidation vault on retry. Burning tokens against the liquidation vault pays exactly their share of its collateral and cannot touch tokens being redeemed.',
  OV, Q + ', at several prices', 'Tests use single round numbers.',
  [VR, VT, RE], [('liquidate_vault, redeem_tokens_liquidation, report_undercollateralized_vault', VR), ('RichVault::liquidate, slash_for_to_be_redeemed', VT)], ['VaultRegistry::report_undercollateralized_vault', 'Redeem::liquidation_redeem', 'Redeem::execute_redeem', 'Redeem::cancel_redeem']),
 ('V09', 'Open requests can always be completed or cancelled',
  'An open issue request that was paid in full (or in part, by its requester) can be executed, also if the vault stopped accepting issues, became undercollateralised or was liquidated meanwhile; an honest vault that made the exact payment can always execute an open redeem (without premium) or replace request; every expired request can be cancelled.',
  OV, Q, 'Failing paths in rare states are what tests do not visit.',
  [IS, RE, RP, VR, VT], [('_execute_issue, _cancel_issue', IS), ('_execute_redeem, _cancel_redeem', RE), ('_execute_replace, _cancel_replace', RP), ('get_issuable_tokens_from_vault, force_withdraw_collateral', VR)], ['results of the execute and cancel extrinsics']),
]
