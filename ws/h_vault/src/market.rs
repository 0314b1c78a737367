//! Oracle prices, amounts, conversions, fee rates and the distribution of fees.
use super::*;
use oracle::Pallet as Orc;
use sp_runtime::traits::One;
use sp_runtime::FixedPointNumber;
use traits::OracleApi;

type Fee = fee::Pallet<Test>;
type Ts = pallet_timestamp::Pallet<Test>;

// ---------------------------------------------------------------- oracle
const K: [OracleKey; 2] = [OracleKey::ExchangeRate(COLL), OracleKey::FeeEstimation];
struct Feed {
    key: usize,
    who: Acc,
    at: u64,
    value: u128,
}
/// The middle value (or the average of the two middle values, rounded down) of the given ones.
fn is_median(v: &[u128], m: u128) -> bool {
    let n = v.len();
    let below = |x: u128| v.iter().filter(|y| **y < x).count();
    let upto = |x: u128| v.iter().filter(|y| **y <= x).count();
    let nth = |k: usize| *v.iter().find(|x| below(**x) <= k && k < upto(**x)).unwrap();
    if n % 2 == 1 {
        m == nth(n / 2)
    } else {
        let (a, b) = (nth(n / 2 - 1), nth(n / 2));
        // a + b without overflow
        m == a / 2 + b / 2 + (a % 2 + b % 2) / 2
    }
}
pub fn oracle_hist() {
    let w = sym::param(0) as usize;
    let n = sym::param(15) as usize;
    let delay = sym::uint("delay", 6) as u64;
    oracle::MaxDelay::<Test>::put(delay);
    let mut now = sym::uint("start", 6) as u64;
    Ts::set_timestamp(now);
    for a in [1, 2, 3] {
        sym::check(Orc::<Test>::insert_authorized_oracle(RawOrigin::Root, a, vec![1].try_into().unwrap()).is_ok(), "root authorises oracles");
    }
    let mut feeds: Vec<Feed> = vec![];
    let mut allowed = [false, true, true, true, false];
    let names = ["x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14"];
    for i in 0..n {
        let op = sym::param(1 + i);
        let before = store::snapshot();
        let agg = |k: usize| oracle::Aggregate::<Test>::get(&K[k]);
        let old = [agg(0), agg(1)];
        let mut block = false;
        let r = match op {
            1..=6 => {
                let who = if op <= 4 { op } else { 1 };
                let v = sym::uint(names[i], w);
                let u = v ^ 1;
                let x = FixedU128::from_inner(v);
                let values = match op {
                    5 => vec![(K[0].clone(), x), (K[1].clone(), FixedU128::from_inner(u))],
                    6 => vec![(K[0].clone(), FixedU128::from_inner(u)), (K[0].clone(), x)],
                    _ => vec![(K[0].clone(), x)],
                };
                let r = with_storage_layer(|| de(Orc::<Test>::feed_values(RawOrigin::Signed(who), values)));
                sym::check(r.is_ok() == allowed[who as usize], "exactly the authorised oracles may feed values");
                if r.is_ok() {
                    feeds.retain(|f| !(f.who == who && (f.key == 0 || op == 5)));
                    feeds.push(Feed { key: 0, who, at: now, value: v });
                    if op == 5 {
                        feeds.push(Feed { key: 1, who, at: now, value: u });
                    }
                }
                r
            }
            10 | 11 => {
                if op == 10 {
                    now += sym::uint(names[i], 6) as u64;
                    Ts::set_timestamp(now);
                }
                block = true;
                let told = Told::get();
                Orc::<Test>::begin_block(0);
                sym::check(Told::get() > told || agg(0) == old[0], "a new price is announced");
                for k in 0..2 {
                    let fresh: Vec<u128> = feeds.iter().filter(|f| f.key == k && f.at + delay >= now).map(|f| f.value).collect();
                    match agg(k) {
                        None => {
                            sym::check(fresh.is_empty(), "there is a price while an oracle has fed a fresh value");
                            sym::check(Orc::<Test>::get_price(K[k].clone()).is_err(), "without a price there is an error");
                            sym::covered!("no price");
                        }
                        Some(m) => {
                            sym::check(!fresh.is_empty(), "a price does not outlive the values it was made from");
                            sym::check(is_median(&fresh, m.into_inner()), "the price is the median of the fresh values");
                            sym::check(Orc::<Test>::get_price(K[k].clone()) == Ok(m), "the price is reported");
                            sym::covered!("price");
                        }
                    }
                }
                Ok(())
            }
            20 => {
                let r = with_storage_layer(|| Orc::<Test>::remove_authorized_oracle(RawOrigin::Root, 1));
                allowed[1] = false;
                r
            }
            21 => with_storage_layer(|| Orc::<Test>::remove_authorized_oracle(RawOrigin::Signed(1), 2)),
            22 => {
                allowed[4] = true;
                with_storage_layer(|| Orc::<Test>::insert_authorized_oracle(RawOrigin::Root, 4, vec![].try_into().unwrap()))
            }
            _ => with_storage_layer(|| Orc::<Test>::insert_authorized_oracle(RawOrigin::Signed(4), 4, vec![].try_into().unwrap())),
        };
        sym::check(r.is_ok() != (op == 21 || op == 23) || op <= 6, "only root manages the oracles");
        if r.is_err() {
            sym::check(store::same(&before, &store::snapshot()), "a refused call changes nothing");
        }
        if !block {
            sym::check(agg(0) == old[0] && agg(1) == old[1], "prices change at the start of a block only");
        }
    }
    sym::covered!("end of history");
}
fn amt(x: u128, c: CurrencyId) -> Amt {
    Amount::new(x, c)
}
fn conv(x: u128, from: CurrencyId, to: CurrencyId) -> Option<u128> {
    match <Orc<Test> as OracleApi<Amt, CurrencyId>>::convert(&amt(x, from), to) {
        Ok(a) => {
            sym::check(a.currency() == to, "a conversion ends in the wanted currency");
            Some(a.amount())
        }
        Err(_) => None,
    }
}
/// p0: width of the amount, p1: width of the rates, p2: what is checked
pub fn conversion() {
    let x = sym::uint("x", sym::param(0) as usize);
    let r = sym::uint("rate", sym::param(1) as usize);
    let has = sym::boolean("has");
    if has {
        oracle::Aggregate::<Test>::insert(OracleKey::ExchangeRate(COLL), FixedU128::from_inner(r));
    }
    match sym::param(2) {
        0 => {
            let want = if has { sym::muldiv(x, r, ONE, 0) } else { None };
            sym::check(conv(x, WRAPPED, COLL) == want, "wrapped tokens are worth their amount times the price, rounded down");
            sym::check(conv(x, COLL, COLL) == Some(x) && conv(x, WRAPPED, WRAPPED) == Some(x), "converting to the same currency changes nothing");
            sym::covered!("to collateral");
        }
        1 => {
            let want = if !has { None } else if x == 0 { Some(0) } else { sym::muldiv(x, ONE, r, 0) };
            sym::check(conv(x, COLL, WRAPPED) == want, "collateral is worth its amount divided by the price, rounded down");
            sym::covered!("to wrapped");
        }
        2 => {
            let r2 = sym::uint("rate2", sym::param(1) as usize);
            oracle::Aggregate::<Test>::insert(OracleKey::ExchangeRate(NATIVE), FixedU128::from_inner(r2));
            let base = conv(x, COLL, WRAPPED);
            let want = base.and_then(|b| conv(b, WRAPPED, NATIVE));
            sym::check(conv(x, COLL, NATIVE) == want, "other currencies are converted through the wrapped one");
            sym::covered!("through wrapped");
        }
        // no gain from converting back and forth; fixed prices keep this linear
        3 => {
            sym::assume(has);
            let r = [1, 3, ONE / 3, ONE, 5 * ONE / 2, 7 * ONE + 1, 333 * ONE + 7, 123_456 * ONE + 789][sym::param(3) as usize];
            oracle::Aggregate::<Test>::insert(OracleKey::ExchangeRate(COLL), FixedU128::from_inner(r));
            if let Some(y) = conv(x, WRAPPED, COLL) {
                let back = conv(y, COLL, WRAPPED);
                sym::check(back.map_or(true, |z| z <= x), "converting to collateral and back gains nothing");
                sym::covered!("back");
            }
            if let Some(y) = conv(x, COLL, WRAPPED) {
                let back = conv(y, WRAPPED, COLL);
                sym::check(back.map_or(true, |z| z <= x), "converting to wrapped and back gains nothing");
            }
            let d = sym::uint("more", sym::param(0) as usize);
            if let (Some(a), Some(b)) = (conv(x, WRAPPED, COLL), conv(x + d, WRAPPED, COLL)) {
                sym::check(a <= b, "more tokens are not worth less");
            }
            if let (Some(a), Some(b)) = (conv(x, COLL, WRAPPED), conv(x + d, COLL, WRAPPED)) {
                sym::check(a <= b, "more collateral is not worth less");
            }
        }
        _ => sym::check(false, "parameter"),
    }
}
// ---------------------------------------------------------------- amounts
pub fn amount_math() {
    let (a, b) = (sym::u128("a"), sym::u128("b"));
    let ca = [WRAPPED, COLL][sym::pick("ca", 0, 1) as usize];
    let cb = [WRAPPED, COLL][sym::pick("cb", 0, 1) as usize];
    let (x, y) = (amt(a, ca), amt(b, cb));
    let same = ca == cb;
    let is = |r: Result<Amt, DispatchError>, want: Option<u128>| match r {
        Ok(z) => Some(z.amount()) == want && z.currency() == ca,
        Err(_) => want.is_none(),
    };
    let only = |w: Option<u128>| if same { w } else { None };
    match sym::param(0) {
        0 => {
            sym::check(is(x.checked_add(&y), only(a.checked_add(b))), "amounts add exactly, within one currency, or not at all");
            sym::check(is(x.checked_sub(&y), only(a.checked_sub(b))), "amounts subtract exactly, within one currency, or not at all");
            sym::check(is(x.saturating_sub(&y), only(Some(a.saturating_sub(b)))), "saturating subtraction stops at zero");
            let mut z = x.clone();
            let r = z.checked_accrue(&y).is_ok();
            let want = only(a.checked_add(b));
            sym::check(r == want.is_some() && z.amount() == want.unwrap_or(a) && z.currency() == ca, "accruing adds exactly or leaves the amount alone");
            sym::check(is(x.min(&y), only(Some(a.min(b)))), "the smaller amount");
            sym::check(is(x.max(&y), only(Some(a.max(b)))), "the larger amount");
            let o = |r: Result<bool, DispatchError>, want: bool| if same { r == Ok(want) } else { r.is_err() };
            sym::check(o(x.lt(&y), a < b) && o(x.le(&y), a <= b) && o(x.gt(&y), a > b) && o(x.ge(&y), a >= b) && o(x.eq(&y), a == b) && o(x.ne(&y), a != b),
                "amounts compare by value, within one currency");
            sym::check(x.is_zero() == (a == 0) && Amt::zero(ca).amount() == 0, "zero");
        }
        1 => {
            let r = FixedU128::from_inner(b);
            let all = [(sp_runtime::Rounding::Down, 0), (sp_runtime::Rounding::Up, 1), (sp_runtime::Rounding::NearestPrefDown, 2), (sp_runtime::Rounding::NearestPrefUp, 3)];
            match sym::param(1) {
                4 => sym::check(is(x.checked_mul(&r), sym::muldiv(a, b, ONE, 0)), "multiplication rounds down"),
                5 => sym::check(is(x.checked_div(&r), sym::muldiv(a, ONE, b, 0)), "division rounds down and refuses to divide by zero"),
                i => {
                    let (m, k) = all[i as usize];
                    sym::check(is(x.checked_rounded_mul(&r, m), sym::muldiv(a, b, ONE, k)), "multiplication rounds as asked");
                }
            }
        }
        2 => {
            let want = if same { sym::muldiv(a, ONE, b, 0) } else { None };
            let r = x.ratio(&y);
            sym::check(if b == 0 || !same { r.is_err() } else { true }, "a ratio needs one currency and a divisor");
            sym::check(match r { Ok(z) => Some(z.into_inner()) == want, Err(_) => want.is_none() }, "the ratio of two amounts");
        }
        _ => {
            let f = |r: Result<FixedU128, DispatchError>| r.ok().map(|z| z.into_inner());
            sym::check(f(x.to_unsigned_fixed_point()) == a.checked_mul(ONE), "an amount as a fixed point number");
            let s = x.to_signed_fixed_point().ok().map(|z| z.into_inner());
            let want = if a <= i128::MAX as u128 { (a as i128).checked_mul(ONE as i128) } else { None };
            sym::check(s == want, "an amount as a signed fixed point number");
            let u = FixedU128::from_inner(b);
            sym::check(is(Amt::from_unsigned_fixed_point(u, ca), Some(b / ONE)), "a fixed point number is cut to an amount");
            let i = sp_runtime::FixedI128::from_inner(b as i128);
            let want = if (b as i128) <= -(ONE as i128) { None } else if (b as i128) < 0 { Some(0) } else { Some(b / ONE) };
            sym::check(is(Amt::from_signed_fixed_point(i, ca), want), "a negative number is no amount");
        }
    }
    sym::covered!("amounts");
}
pub fn amount_funds() {
    let (f1, r1, f2) = (sym::uint("free1", 15), sym::uint("reserved1", 15), sym::uint("free2", 15));
    let x = sym::u128("x");
    Tok::put(&1, COLL, f1, r1);
    Tok::put(&2, COLL, f2, 0);
    Tok::set_issuance(COLL, f1 + r1 + f2);
    Tok::put(&1, NATIVE, 55, 66);
    let a = amt(x, COLL);
    let op = sym::param(0);
    let r = with_storage_layer(|| match op {
        0 => a.transfer(&1, &2),
        1 => a.lock_on(&1),
        2 => a.unlock_on(&1),
        3 => a.burn_from(&1),
        _ => a.mint_to(&2),
    });
    let now = (free(COLL, 1), reserved(COLL, 1), free(COLL, 2), Tok::total_issuance(COLL));
    let old = (f1, r1, f2, f1 + r1 + f2);
    let want = match op {
        0 if x <= f1 => Some((f1 - x, r1, f2 + x, old.3)),
        1 if x <= f1 => Some((f1 - x, r1 + x, f2, old.3)),
        2 if x <= r1 => Some((f1 + x, r1 - x, f2, old.3)),
        3 if x <= r1 => Some((f1, r1 - x, f2, old.3 - x)),
        4 if x <= u128::MAX - old.3 => Some((f1, r1, f2 + x, old.3 + x)),
        _ => None,
    };
    sym::check(r.is_ok() == want.is_some(), "funds are moved exactly when they are there");
    sym::check(now == want.unwrap_or(old), "funds are moved exactly, or not at all");
    sym::check(free(NATIVE, 1) == 55 && reserved(NATIVE, 1) == 66, "other currencies are left alone");
    sym::check(currency::get_free_balance::<Test>(COLL, &1) == amt(now.0, COLL) && currency::get_reserved_balance::<Test>(COLL, &1) == amt(now.1, COLL), "balances are reported");
    if r.is_ok() {
        sym::covered!("moved");
    } else {
        sym::covered!("refused");
    }
}
// ---------------------------------------------------------------- fees
fn rate(k: u64) -> FixedU128 {
    match k {
        0 => fee::IssueFee::<Test>::get(),
        1 => fee::IssueGriefingCollateral::<Test>::get(),
        2 => fee::RedeemFee::<Test>::get(),
        3 => fee::PremiumRedeemFee::<Test>::get(),
        4 => fee::PunishmentFee::<Test>::get(),
        _ => fee::ReplaceGriefingCollateral::<Test>::get(),
    }
}
pub fn fee_rates() {
    let k = sym::param(0);
    let start: Vec<FixedU128> = (0..6).map(|i| FixedU128::from_inner(100 + i)).collect();
    fee::IssueFee::<Test>::put(start[0]);
    fee::IssueGriefingCollateral::<Test>::put(start[1]);
    fee::RedeemFee::<Test>::put(start[2]);
    fee::PremiumRedeemFee::<Test>::put(start[3]);
    fee::PunishmentFee::<Test>::put(start[4]);
    fee::ReplaceGriefingCollateral::<Test>::put(start[5]);
    let v = sym::u128("rate");
    let root = sym::boolean("root");
    let o = || if root { RawOrigin::Root } else { RawOrigin::Signed(1) };
    let f = FixedU128::from_inner(v);
    let r = with_storage_layer(|| {
        de(match k {
            0 => Fee::set_issue_fee(o(), f),
            1 => Fee::set_issue_griefing_collateral(o(), f),
            2 => Fee::set_redeem_fee(o(), f),
            3 => Fee::set_premium_redeem_fee(o(), f),
            4 => Fee::set_punishment_fee(o(), f),
            _ => Fee::set_replace_griefing_collateral(o(), f),
        })
    });
    sym::check(r.is_ok() == (root && v <= ONE), "only root sets fee rates, and never above the maximum");
    for i in 0..6 {
        let want = if i == k && r.is_ok() { f } else { start[i as usize] };
        sym::check(rate(i) == want, "a fee rate is set alone");
    }
    let x = sym::u128("x");
    let a = amt(x, COLL);
    let got = match k {
        0 => Fee::get_issue_fee(&a),
        1 => Fee::get_issue_griefing_collateral(&a),
        2 => Fee::get_redeem_fee(&a),
        3 => Fee::get_premium_redeem_fee(&a),
        4 => Fee::get_punishment_fee(&a),
        _ => Fee::get_replace_griefing_collateral(&a),
    };
    let want = sym::muldiv(x, rate(k).into_inner(), ONE, if k == 3 { 0 } else { 3 });
    sym::check(match got { Ok(z) => Some(z.amount()) == want && z.currency() == COLL, Err(_) => want.is_none() }, "a fee is the rate times the amount, rounded");
    sym::check(want.is_some(), "a fee can be computed for every amount");
    sym::check(want.map_or(true, |w| w <= x), "a fee is never more than the amount");
    if r.is_ok() {
        sym::covered!("set");
    } else {
        sym::covered!("refused");
    }
}
pub fn commission() {
    setup();
    let v = sym::u128("commission");
    let who = [V1, V2, OTHER][sym::pick("who", 0, 2) as usize];
    let open = sym::boolean("open");
    if open {
        for a in [V1, V2] {
            let r = Nom::opt_in_to_nomination(RawOrigin::Signed(a), PAIR);
            sym::check(r.is_ok(), "opted in");
        }
    }
    let before = store::snapshot();
    let r = with_storage_layer(|| de(Fee::set_commission(RawOrigin::Signed(who), PAIR, FixedU128::from_inner(v))));
    sym::check(r.is_ok() == (open && who != OTHER && v <= FixedU128::one().into_inner()), "a vault open to nomination sets a commission of at most all rewards");
    if r.is_ok() {
        // the other vault's is not set
        for a in [V1, V2] {
            let c = fee::Commission::<Test>::get(vid(a));
            sym::check(c == if a == who { Some(FixedU128::from_inner(v)) } else { None }, "a vault sets its own commission");
        }
        sym::covered!("set");
    } else {
        sym::check(store::same(&before, &store::snapshot()), "a refused call changes nothing");
        sym::covered!("refused");
    }
}
/// `OTHER` pays fees in the native currency.
pub fn distribute(x: u128) -> DispatchResult {
    let a = amt(x, NATIVE);
    a.transfer(&OTHER, &feepool())?;
    Fee::distribute_rewards(&a)
}
pub fn withdraw(who: Acc, v: Acc) -> DispatchResult {
    de(Fee::withdraw_rewards(RawOrigin::Signed(who), vid(v), None))?;
    // stakes from before nominators were sent away
    for k in 0..staking::Pallet::<Test>::nonce(&vid(v)) {
        de(Fee::withdraw_rewards(RawOrigin::Signed(who), vid(v), Some(k)))?;
    }
    Ok(())
}
#[derive(Default)]
pub struct Fees {
    n: u128,
    inexact: bool,
    /// stakes changed or rewards were taken since the last distribution
    mixed: bool,
    own: u128,
    /// what the operators and the nominator have earned; only while stakes are fixed numbers
    due: [u128; 3],
    last: Option<(u128, [u128; 2], u128, u128)>,
}
fn nominated() -> u128 {
    staking::Pallet::<Test>::compute_stake(&vid(V1), &NOMI).map_or(0, |x| x as u128)
}
impl Fees {
    pub fn step(&mut self, op: u64, x: u128, ok: bool) {
        self.n += 1;
        if op == 60 {
            sym::check(ok, "fees can be distributed");
            self.mixed = self.last.is_some() || self.mixed;
            // tokens the collateral can secure, times six
            let share = |a: Acc| {
                let v = vault(a);
                if !v.accepts_new_issues() { 0 } else if v.secure_collateral_threshold == Some(fx(3, 1)) { 2 * backing(a) } else { 3 * backing(a) }
            };
            self.own = backing(V1);
            let fixed = (0..sym::param(15)).all(|i| {
                let c = sym::param(1 + i as usize);
                c == 60 || c > 100 || !matches!(c, 1..=4 | 10 | 11 | 14 | 20 | 26 | 27 | 30..=32 | 12 | 13 | 15 | 34)
            });
            self.inexact |= !fixed;
            let com = fee::Commission::<Test>::get(vid(V1)).map_or(0, |c| c.into_inner() / (ONE / 8));
            let (b, nom) = ([share(V1), share(V2)], nominated());
            if !self.inexact && self.own > 0 {
                let all = b[0] + b[1];
                let r1 = x * b[0] / all;
                let rn = x * (b[0] * (8 - com) * nom) / (all * 8 * self.own);
                self.due[0] += r1 - rn;
                self.due[1] += rn;
                self.due[2] += x * b[1] / all;
            } else if !self.inexact && b[1] > 0 {
                self.due[2] += x;
            }
            self.last = Some((x, b, nom, com));
        } else if op == 64 && self.last.is_some() {
            // the commission in force when rewards reach the vault counts
            self.inexact = true;
            self.mixed = true;
        } else if self.last.is_some() && matches!(op, 1..=9 | 61..=64) {
            self.mixed = true;
        }
    }
    /// Everybody takes what they are due.
    pub fn settle(&self) {
        let pool = free(NATIVE, feepool());
        let earned = |a: Acc| free(NATIVE, a) + reserved(NATIVE, a) - (1 << 60);
        let wrapped = free(WRAPPED, feepool());
        let mut got = vec![];
        for (w, v) in [(V1, V1), (NOMI, V1), (V2, V2), (V1, V1), (OTHER, V1)] {
            let (b, c) = (free(NATIVE, w), free(WRAPPED, w));
            let r = with_storage_layer(|| withdraw(w, v));
            #[cfg(feature = "native")]
            if std::env::var("DBG").is_ok() { eprintln!("DBG settle {} {:?} {} {}", w, r, free(NATIVE, w) - b, free(WRAPPED, w) - c); }
            sym::check(r.is_ok(), "rewards can always be withdrawn");
            got.push((free(NATIVE, w) - b, free(WRAPPED, w) - c));
        }
        sym::check(got[4] == (0, 0), "who has no stake gets no reward");
        let total: u128 = got.iter().map(|x| x.0).sum();
        let wtotal: u128 = got.iter().map(|x| x.1).sum();
        sym::check(pool - free(NATIVE, feepool()) == total && wrapped - free(WRAPPED, feepool()) == wtotal, "rewards are paid from the fee pool");
        sym::check(free(NATIVE, feepool()) <= 8 * (self.n + 1) || sym::param(14) != 0, "all fees reach those who earned them");
        if let (Some((x, b, nom, com)), false) = (self.last, self.mixed) {
            let (r1, r2) = (got[0].0 + got[1].0 + got[3].0, got[2].0);
            let all = b[0] + b[1];
            sym::check(share(r1, x, b[0], all, 6) && share(r2, x, b[1], all, 6), "vaults share fees in proportion to the tokens their collateral can secure");
            if b[0] > 0 {
                // the nominator's part of what is left after the commission
                sym::check(share(got[1].0 * 8, r1 * (8 - com), nom, self.own, 64), "nominators share fees in proportion to their stake, after the commission");
            }
            sym::covered!("shared");
        }
        if !self.inexact {
            let tol = 4 * self.n + 4;
            for (a, due) in [(V1, self.due[0]), (NOMI, self.due[1]), (V2, self.due[2])] {
                #[cfg(feature = "native")]
                if std::env::var("DBG").is_ok() { eprintln!("DBG due {} {} {}", a, due, earned(a)); }
                sym::check(earned(a) <= due + tol && due <= earned(a) + tol, "everyone earns their share of every fee, at their stake at that time");
            }
            sym::covered!("accounted");
        }
        sym::covered!("settled");
    }
}
