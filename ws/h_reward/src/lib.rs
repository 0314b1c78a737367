//! Harnesses for crates/reward and crates/staking: pro-rata reward distribution and slashing.
#![allow(clippy::all)]
use frame_support::parameter_types;
use frame_support::traits::ConstU32;
use primitives::{CurrencyId, TokenSymbol, VaultId};
use reward::RewardsApi;
use sp_runtime::FixedI128;
use sp_runtime::traits::{BlakeTwo256, IdentityLookup};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev;
impl From<reward::Event<Test>> for Ev {
    fn from(_: reward::Event<Test>) -> Ev {
        Ev
    }
}
impl From<staking::Event<Test>> for Ev {
    fn from(_: staking::Event<Test>) -> Ev {
        Ev
    }
}
type Acc = u64;
impl frame_system::Config for Test {
    type RuntimeOrigin = frame_system::RawOrigin<Acc>;
    type RuntimeCall = ();
    type Nonce = u32;
    type BlockNumber = u32;
    type Hash = sp_core::H256;
    type Hashing = BlakeTwo256;
    type AccountId = Acc;
    type Lookup = IdentityLookup<Acc>;
    type RuntimeEvent = Ev;
    type DbWeight = ();
}
impl reward::Config for Test {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = u32;
    type StakeId = Acc;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<3>;
}
const WRAPPED: CurrencyId = CurrencyId::Token(TokenSymbol::KBTC);
const NATIVE: CurrencyId = CurrencyId::Token(TokenSymbol::KINT);
const COLL: CurrencyId = CurrencyId::Token(TokenSymbol::KSM);
parameter_types! {
    pub const NativeId: CurrencyId = NATIVE;
}
impl staking::Config for Test {
    type RuntimeEvent = Ev;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type GetNativeCurrencyId = NativeId;
    type CurrencyId = CurrencyId;
}
type R = reward::Pallet<Test>;
type Sk = staking::Pallet<Test>;
use frame_support::storage::with_storage_layer;
use frame_support::store;
use sp_runtime::{DispatchError, FixedPointNumber};

// parameter 0: bytes per amount, then the operations
fn amount(name: &str) -> u128 {
    sym::uint(name, sym::param(0) as usize)
}
/// operation codes above 100 use a fixed amount
const FIXED: [u128; 4] = [1_000_003, 77_777_777, 333, 4_294_967_291];
const DIV: i128 = 1_000_000_000_000_000_000;
/// The amounts are in the range where the fixed-point arithmetic is meant to work.
fn sane(x: u128) -> bool {
    x < 1 << 62
}

fn rw_paid(who: Acc) -> Result<u128, DispatchError> {
    <R as RewardsApi<u32, Acc, u128>>::withdraw_reward(&0, &who, WRAPPED)
}
fn rw_due(who: Acc) -> Result<u128, DispatchError> {
    <R as RewardsApi<u32, Acc, u128>>::compute_reward(&0, &who, WRAPPED)
}
fn rw_stake(who: Acc) -> u128 {
    <R as RewardsApi<u32, Acc, u128>>::get_stake(&0, &who).unwrap_or(u128::MAX)
}
fn rw_inner(who: Acc) -> i128 {
    R::stake(&0, &who).into_inner()
}

type SkKey = (Option<u32>, VaultId<Acc, CurrencyId>);
fn vault() -> VaultId<Acc, CurrencyId> {
    VaultId::new(1u64, COLL, WRAPPED)
}
fn key() -> SkKey {
    (None, vault())
}
fn sk_stake(k: &SkKey, who: Acc) -> u128 {
    <Sk as RewardsApi<_, Acc, u128>>::get_stake(k, &who).unwrap_or(u128::MAX)
}
fn sk_total(k: &SkKey) -> u128 {
    <Sk as RewardsApi<_, Acc, u128>>::get_total_stake(k).unwrap_or(u128::MAX)
}

sym::harnesses! {
    // parameters: width, then operations on one pool with two stakers
    // 1/2 deposit, 3/4 withdraw stake, 5 distribute, 6/7 withdraw reward, 8/9 set stake
    fn reward_hist() {
        let n = sym::param(15) as usize;
        let (mut dist, mut paid) = (0u128, 0u128);
        let mut stake = [0u128; 3];
        let names = ["x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12"];
        for i in 0..n {
            let op = sym::param(1 + i);
            let x = if op == 6 || op == 7 { 0 } else if op > 100 { FIXED[i % 4] } else { amount(names[i]) };
            let op = op % 100;
            let before = store::snapshot();
            let who = match op { 1 | 3 | 6 | 8 => 1u64, _ => 2 };
            let w = who as usize;
            let r: Result<u128, DispatchError> = with_storage_layer(|| match op {
                1 | 2 => <R as RewardsApi<u32, Acc, u128>>::deposit_stake(&0, &who, x).map(|_| 0),
                3 | 4 => <R as RewardsApi<u32, Acc, u128>>::withdraw_stake(&0, &who, x).map(|_| 0),
                5 => <R as RewardsApi<u32, Acc, u128>>::distribute_reward(&0, WRAPPED, x).map(|_| 0),
                6 | 7 => rw_paid(who),
                _ => <R as RewardsApi<u32, Acc, u128>>::set_stake(&0, &who, x).map(|_| 0),
            });
            match op {
                1 | 2 => {
                    sym::check(r.is_ok(), "deposits succeed");
                    stake[w] += x;
                }
                3 | 4 => {
                    sym::check(r.is_ok() == (x <= stake[w]), "stake can be withdrawn exactly up to what was deposited");
                    if r.is_ok() {
                        stake[w] -= x;
                    }
                }
                5 => {
                    sym::check(r.is_ok() == (x == 0 || stake[1] + stake[2] > 0), "distribution needs stake");
                    if r.is_ok() {
                        dist += x;
                    }
                }
                6 | 7 => {
                    sym::check(r.is_ok(), "rewards can be withdrawn");
                    paid += r.unwrap_or(0);
                }
                _ => {
                    sym::check(r.is_ok(), "the stake can be set");
                    stake[w] = x;
                }
            }
            if r.is_err() {
                sym::check(store::same(&before, &store::snapshot()), "a failed operation changes nothing");
            }
            sym::check(rw_stake(1) == stake[1] && rw_stake(2) == stake[2], "stakes are what was deposited");
            sym::check(rw_inner(1) + rw_inner(2) == R::total_stake(&0).into_inner(), "total stake");
            sym::check(paid <= dist, "paid at most what was distributed");
            let total = R::total_rewards(WRAPPED).into_inner();
            sym::check(total >= 0 && total == (dist - paid) as i128 * DIV, "total rewards is what was distributed and not paid");
        }
        let (d1, d2) = (rw_due(1), rw_due(2));
        sym::check(d1.is_ok() && d2.is_ok(), "the due reward can be computed");
        let (d1, d2) = (d1.unwrap(), d2.unwrap());
        sym::check(paid + d1 + d2 <= dist, "due and paid rewards do not exceed what was distributed");
        sym::covered!("end");
    }
    // a distribution among unchanged stakes pays everyone their share, short by less than rounding
    fn reward_share() {
        let (a, b, r) = (amount("a"), amount("b"), amount("r"));
        sym::assume(a + b > 0);
        let x = <R as RewardsApi<u32, Acc, u128>>::deposit_stake(&0, &1, a).is_ok()
            && <R as RewardsApi<u32, Acc, u128>>::deposit_stake(&0, &2, b).is_ok()
            && <R as RewardsApi<u32, Acc, u128>>::distribute_reward(&0, WRAPPED, r).is_ok();
        sym::check(x, "setup");
        let p = rw_paid(1);
        sym::check(p.is_ok(), "rewards can be withdrawn");
        let p = p.unwrap();
        let t = a + b;
        // floor(a*r/t) up to the 18 decimals kept per token
        sym::check(p * t <= a * r, "at most the proportional share");
        sym::check((p + 1) * t + t > a * r, "at least the share less rounding");
        let q = rw_paid(1);
        sym::check(q == Ok(0), "a second withdrawal pays nothing");
        sym::check(<R as RewardsApi<u32, Acc, u128>>::withdraw_stake(&0, &1, a).is_ok(), "unstake");
        sym::check(rw_paid(1) == Ok(0), "nothing is paid without stake");
        sym::covered!("end");
    }
    // a stake deposited after a distribution earns nothing from it
    fn reward_late() {
        let (a, b, r) = (amount("a"), amount("b"), amount("r"));
        sym::assume(a > 0);
        let x = <R as RewardsApi<u32, Acc, u128>>::deposit_stake(&0, &1, a).is_ok()
            && <R as RewardsApi<u32, Acc, u128>>::distribute_reward(&0, WRAPPED, r).is_ok()
            && <R as RewardsApi<u32, Acc, u128>>::deposit_stake(&0, &2, b).is_ok();
        sym::check(x, "setup");
        sym::check(rw_due(2) == Ok(0), "late stake earns nothing");
        let c = amount("c");
        let d = rw_due(1);
        sym::check(<R as RewardsApi<u32, Acc, u128>>::deposit_stake(&0, &1, c).is_ok(), "deposit");
        let e = rw_due(1);
        sym::check(d.is_ok() && e.is_ok(), "due");
        let (d, e) = (d.unwrap(), e.unwrap());
        sym::check(e == d || e == d + 1 || e + 1 == d, "changing the stake does not change earned rewards");
        sym::covered!("end");
    }
    // parameters: width, operations, count in parameter 15
    // 1 vault deposits, 2 nominator deposits, 3/4 they withdraw, 5 slash, 6 distribute, 7/8 withdraw reward, 9 force refund, 10 nominator withdraws everything at index 0
    fn staking_hist() {
        let n = sym::param(15) as usize;
        let names = ["x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12"];
        let k = key();
        let (mut dist, mut paid) = (0u128, 0u128);
        let (mut into, mut out, mut slashed, mut refunded) = (0u128, 0u128, 0u128, 0u128);
        for i in 0..n {
            let op = sym::param(1 + i);
            let x = if op > 100 { FIXED[i % 4] } else if op >= 7 { 0 } else { amount(names[i]) };
            let op = op % 100;
            let before = store::snapshot();
            let who = match op { 1 | 3 | 7 => 1u64, _ => 2 };
            let (s0, t0) = (sk_stake(&k, who), sk_total(&k));
            let (o1, o2) = (sk_stake(&k, 1), sk_stake(&k, 2));
            if op == 5 {
                // callers slash at most what is there
                sym::assume(x <= t0);
            }
            let r: Result<u128, DispatchError> = with_storage_layer(|| match op {
                1 | 2 => <Sk as RewardsApi<_, Acc, u128>>::deposit_stake(&k, &who, x).map(|_| 0),
                3 | 4 => <Sk as RewardsApi<_, Acc, u128>>::withdraw_stake(&k, &who, x).map(|_| 0),
                5 => <Sk as staking::StakingApi<_, u32, u128>>::slash_stake(&k.1, x).map(|_| 0),
                6 => <Sk as RewardsApi<_, Acc, u128>>::distribute_reward(&k, WRAPPED, x).map(|_| 0),
                7 | 8 => <Sk as RewardsApi<_, Acc, u128>>::withdraw_reward(&k, &who, WRAPPED),
                9 => <Sk as staking::StakingApi<_, u32, u128>>::force_refund(&k.1),
                _ => <Sk as RewardsApi<_, Acc, u128>>::withdraw_all_stake(&(Some(0), k.1.clone()), &who),
            });
            let (s1, t1) = (sk_stake(&k, who), sk_total(&k));
            match op {
                1 | 2 => {
                    sym::check(r.is_ok(), "deposits succeed");
                    into += x;
                    sym::check(t1 == t0 + x, "a deposit adds to the total");
                    sym::check(s1 == s0 + x || s1 == s0 + x + 1, "a deposit adds to the stake");
                }
                3 | 4 => {
                    sym::check(r.is_ok() == (x <= s0), "stake can be withdrawn exactly up to the current stake");
                    if r.is_ok() {
                        out += x;
                        sym::check(t1 + x <= t0, "a withdrawal reduces the total");
                        sym::check(s1 + x <= s0, "a withdrawal reduces the stake");
                    }
                }
                5 => {
                    sym::check(r.is_ok(), "slashing succeeds");
                    slashed += x;
                    sym::check(t1 == t0 - x, "a slash reduces the total by its amount");
                    let (p1, p2) = (sk_stake(&k, 1), sk_stake(&k, 2));
                    sym::check(p1 <= o1 && p2 <= o2, "a slash never increases a stake");
                }
                6 => {
                    sym::check(r.is_ok(), "distributions succeed");
                    if t0 > 0 {
                        dist += x;
                    }
                }
                7 | 8 => {
                    sym::check(r.is_ok(), "rewards can be withdrawn");
                    paid += r.unwrap_or(0);
                }
                9 => {
                    sym::check(r.is_ok(), "a refund succeeds");
                    refunded = r.unwrap_or(0);
                    sym::check(refunded >= o2 && refunded <= o2 + 1, "the refund covers the nominator");
                    sym::check(sk_stake(&k, 1) == o1, "the vault keeps its stake");
                    sym::check(sk_stake(&k, 2) == 0, "the nominator has left the pool");
                    sym::check(sk_total(&k) == o1, "only the vault's stake remains");
                    let old = (Some(0), k.1.clone());
                    sym::check(sk_stake(&old, 2) == o2, "the nominator's stake is kept at the old index");
                }
                _ => {
                    sym::check(r.is_ok(), "a refunded nominator can withdraw");
                    sym::check(r.unwrap_or(0) <= refunded, "at most the refund");
                    sym::check(sk_total(&k) == t0, "the current pool is not touched");
                    sym::check(sk_stake(&(Some(0), k.1.clone()), 2) == 0, "nothing is left at the old index");
                    refunded -= r.unwrap_or(0);
                }
            }
            if r.is_err() {
                sym::check(store::same(&before, &store::snapshot()), "a failed operation changes nothing");
            }
            let (p1, p2) = (sk_stake(&k, 1), sk_stake(&k, 2));
            sym::check(p1 != u128::MAX && p2 != u128::MAX && sk_total(&k) != u128::MAX, "stakes can be computed");
            // each stake is rounded to 18 decimals
            sym::check(p1 + p2 <= sk_total(&k) + 1, "the stakes do not exceed the total");
            sym::check(paid <= dist, "paid at most what was distributed");
        }
        sym::check(out + slashed <= into, "no stake is created");
        sym::covered!("end");
    }
}
