# (id, title, statement, over, quantifier text, why, files, mechanism[(name, where)], observe_at)
R, S = 'crates/reward/src/', 'crates/staking/src/'
PROPS = [
 ('R01', 'Reward pools never pay out more than was put in',
  'In a reward pool, over any history of stake deposits, stake withdrawals, stake changes, reward distributions and reward withdrawals, what has been paid plus what is still due to the participants never exceeds what was distributed. The recorded stakes and their total are exactly what was deposited less what was withdrawn, stake can be withdrawn exactly up to the own stake, rewards can be distributed exactly when there is stake, and a failing operation changes nothing.',
  ['inputs', 'histories'], 'all amounts, for the stated operation histories',
  'Tests run a few histories with round numbers; rounding in the 18-decimal tallies depends on the amounts.',
  [R + 'lib.rs'], [('deposit_stake/withdraw_stake/distribute_reward/withdraw_reward', R + 'lib.rs')], ['RewardsApi for reward::Pallet']),
 ('R02', 'Rewards are shared in proportion to stake, and only with present stake',
  'Each participant of a reward pool earns their proportion of a distribution, short by less than one unit of rounding; a second withdrawal pays nothing; stake deposited after a distribution earns nothing from it; and changing a stake does not change the rewards already earned by more than a rounding unit.',
  ['inputs'], 'all stakes and rewards below 2^32',
  'Tests use stakes that divide the rewards evenly.',
  [R + 'lib.rs'], [('compute_reward', R + 'lib.rs')], ['RewardsApi for reward::Pallet']),
 ('S01', 'Vault stakes, slashes and rewards are conserved',
  'In a vault staking pool, deposits add to the stake and to the total, a slash reduces the total by exactly the slashed amount and never increases anyone\'s stake, and the stakes of the participants never exceed the total by more than a rounding unit. Stake can be withdrawn exactly up to the current, slashed stake; no stake is created; rewards paid never exceed the rewards distributed; a failing operation changes nothing.',
  ['inputs', 'histories'], 'all amounts, for the stated operation histories',
  'The slash tally interacts with every later operation through rounding; tests run a few histories with round numbers.',
  [S + 'lib.rs'], [('apply_slash/compute_stake_at_index/withdraw_stake', S + 'lib.rs')], ['RewardsApi and StakingApi for staking::Pallet']),
 ('S02', 'A forced refund keeps every nominator\'s slashed stake withdrawable',
  'After a vault forces a refund, its pool contains only its own stake, the refunded amount covers every nominator, and each nominator can withdraw from the old pool exactly the stake they had, including slashes from before the refund and excluding later ones, without touching the new pool and only once.',
  ['inputs', 'histories'], 'all amounts, for the stated operation histories',
  'Tests refund without a slash before, so the slash tally of the old pool is never exercised.',
  [S + 'lib.rs', 'crates/nomination/src/lib.rs'], [('force_refund, apply_slash', S + 'lib.rs')], ['StakingApi::force_refund', 'RewardsApi::withdraw_stake at an old index']),
]
