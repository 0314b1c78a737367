# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
E, S, A, F, P, C = ('crates/%s/src/lib.rs' % x for x in ('escrow', 'supply', 'annuity', 'farming', 'tx-pause', 'clients-info'))
PROPS = [
 ('E01', 'Voting power follows the lock, and locks follow the rules',
  'An account\'s voting power is its locked amount divided by the longest period, times the blocks left, and nothing from the end of the lock on. A lock is made or extended exactly when it gets larger or longer, has not expired, ends within the longest period, is at least one unit per block of it, and is covered by the free balance (less what governance restricts, nothing for barred accounts); it can be withdrawn exactly once it has ended. Exactly the locked tokens cannot be spent; the stake in the reward pool is the voting power when last updated. Refused calls change nothing.',
  ['inputs', 'histories'], 'all amounts; all end heights and times of the listed histories', 'Tests use a few fixed amounts and times.',
  [E], [('create_lock, increase_amount, increase_unlock_height, withdraw, deposit_for, get_free_balance, balance_at', E)], ['Escrow::balance_at', 'Escrow::create_lock', 'Escrow::withdraw', 'the token lock', 'the stake in the reward pool']),
 ('E02', 'The total voting power is the sum of all voting power',
  'At every height from now on the total voting power equals the sum of the voting power of all accounts, whatever locks were made, enlarged, prolonged, ended or withdrawn; it is what governance sees as the issuance.',
  ['inputs', 'histories'], 'all amounts; all end heights and times of the listed histories', 'Tests check the total only while no lock has ended.',
  [E], [('checkpoint, supply_at, SlopeChanges', E)], ['Escrow::total_supply', 'Currency::total_issuance']),
 ('E03', 'Inflation is minted once per period and in the right amount',
  'At the due block, and at no other, exactly the configured rate of the issuance is minted to the supply account, recorded and handed on for distribution; the next one is due one period later. Only governance sets it.',
  ['inputs', 'histories'], 'all rates, issuances, start and current blocks', 'Tests use one rate.',
  [S], [('begin_block', S)], ['Supply::on_initialize', 'total issuance']),
 ('E04', 'Block rewards share out the funds and are covered by them',
  'Each block distributes exactly the funds of the last update divided by the period, capped per wrapped token; withdrawing pays exactly what was earned, once; the earned rewards are covered by the funds held. Only governance changes the rates.',
  ['inputs', 'histories'], 'all funds and caps; the listed histories', 'Coverage depends on the order of updates, blocks and withdrawals.',
  [A], [('begin_block, update_reward_per_block, min_reward_per_block, withdraw_rewards', A)], ['Annuity::on_initialize', 'Annuity::withdraw_rewards', 'balance of the annuity account']),
 ('E05', 'Farming rewards are funded, paid exactly, and stakes come back in full',
  'A schedule is extended only with funds of the treasury and never schedules more than was left and added; each period pays its share while the schedule runs and someone is staked; claims pay exactly the earned rewards, once; the pool always covers earned and scheduled rewards, also when a schedule is changed or removed. Staked tokens are reserved and come back in full. The order of the pair in an LP token does not matter.',
  ['inputs', 'histories'], 'all reward amounts, period counts and withdrawals; the listed histories', 'Tests never change a schedule while rewards are unclaimed.',
  [F], [('update_reward_schedule, remove_reward_schedule, deposit, withdraw, claim, on_initialize', F)], ['Farming calls', 'balances of the pool account, treasury and farmers']),
 ('E06', 'Paused calls do not pass, and pausing can always be undone',
  'A call passes exactly if neither it nor its pallet is paused, or it is exempt; names that are too long count as paused when so configured. Only governance pauses and unpauses; the pausing pallet itself and exempt calls can never be paused.',
  ['inputs', 'histories'], 'all sequences of pause and unpause over all names of the stated set', 'The combinations of pallet-wide, per-call and exempt entries are many.',
  [P], [('is_paused, ensure_can_pause, ensure_can_unpause, contains', P)], ['TxPause::contains', 'TxPause::pause', 'TxPause::unpause']),
 ('E07', 'Client releases take effect only with an upgrade',
  'A pending release becomes current exactly at the next runtime upgrade, replacing only the release of the same client; only governance sets releases.',
  ['inputs', 'histories'], 'all names and releases', 'Tests use one fixed set of names.',
  [C], [('set_current_client_release, set_pending_client_release, try_upgrade_current_client_releases', C)], ['ClientsInfo::current_client_release']),
]
