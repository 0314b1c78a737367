//! Harnesses for the lending pallet: two markets, with the oracle and the currency conversion.
#![allow(clippy::all)]
use currency::Amount;
use frame_support::storage::types::{StorageInstance, StorageValue, ValueQuery};
use frame_support::storage::with_storage_layer;
use frame_support::traits::{ConstU32, UnixTime};
use frame_support::{parameter_types, store, PalletId};
use frame_system::{EnsureRoot, RawOrigin};
use loans::{CurveModel, InterestRateModel, JumpModel, Market, MarketState};
use oracle::OracleKey;
use orml_traits::currency::MutationHooks;
use orml_traits::MultiCurrency;
use primitives::{CurrencyId, Rate, Ratio, TokenSymbol};
use sp_core::H256;
use sp_runtime::traits::{BlakeTwo256, IdentityLookup};
use sp_runtime::{DispatchError, DispatchResult, FixedI128, FixedU128};
use traits::{LoansApi, OnExchangeRateChange};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev;
macro_rules! ev {
    ($($t:ty),* $(,)?) => { $(impl From<$t> for Ev { fn from(_: $t) -> Ev { Ev } })* };
}
ev!(security::Event<Test>, oracle::Event<Test>, loans::Event<Test>);
type Acc = u128;
impl frame_system::Config for Test {
    type RuntimeOrigin = RawOrigin<Acc>;
    type RuntimeCall = ();
    type Nonce = u32;
    type BlockNumber = u32;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = Acc;
    type Lookup = IdentityLookup<Acc>;
    type RuntimeEvent = Ev;
    type DbWeight = ();
}
const IBTC: CurrencyId = CurrencyId::Token(TokenSymbol::IBTC);
const DOT: CurrencyId = CurrencyId::Token(TokenSymbol::DOT);
const INTR: CurrencyId = CurrencyId::Token(TokenSymbol::INTR);
const L_DOT: CurrencyId = CurrencyId::LendToken(1);
const L_IBTC: CurrencyId = CurrencyId::LendToken(2);
parameter_types! {
    pub const NativeId: CurrencyId = INTR;
    pub const CollId: CurrencyId = DOT;
    pub const WrappedId: CurrencyId = IBTC;
    pub const LoansPalletId: PalletId = PalletId(*b"loan/mod");
}
pub struct Hooks;
impl MutationHooks<Acc, CurrencyId, u128> for Hooks {
    type OnDust = ();
    type OnSlash = loans::OnSlashHook<Test>;
    type PreDeposit = loans::PreDeposit<Test>;
    type PostDeposit = loans::PostDeposit<Test>;
    type PreTransfer = loans::PreTransfer<Test>;
    type PostTransfer = loans::PostTransfer<Test>;
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
impl orml_tokens::Config for Test {
    type Balance = u128;
    type CurrencyId = CurrencyId;
    type CurrencyHooks = Hooks;
}
impl currency::Config for Test {
    type UnsignedFixedPoint = FixedU128;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type Balance = u128;
    type GetNativeCurrencyId = NativeId;
    type GetRelayChainCurrencyId = CollId;
    type GetWrappedCurrencyId = WrappedId;
    type CurrencyConversion = currency::CurrencyConvert<Test, oracle::Pallet<Test>, Loans>;
}
impl security::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
pub struct Nop;
impl OnExchangeRateChange<CurrencyId> for Nop {
    fn on_exchange_rate_change(_: &CurrencyId) {}
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
}
impl oracle::Config for Test {
    type RuntimeEvent = Ev;
    type OnExchangeRateChange = Nop;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
pub struct ClockPrefix;
impl StorageInstance for ClockPrefix {
    const ID: u64 = 0xc10c;
    fn instance() -> u64 {
        0
    }
}
type Clock = StorageValue<ClockPrefix, u64, ValueQuery>;
pub struct Wall;
impl UnixTime for Wall {
    fn now() -> core::time::Duration {
        core::time::Duration::from_secs(Clock::get())
    }
}
impl loans::Config for Test {
    type RuntimeEvent = Ev;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<Acc>;
    type UpdateOrigin = EnsureRoot<Acc>;
    type WeightInfo = ();
    type UnixTime = Wall;
    type RewardAssetId = NativeId;
    type ReferenceAssetId = WrappedId;
    type OnExchangeRateChange = Nop;
}
type Tok = orml_tokens::Pallet<Test>;
type Loans = loans::Pallet<Test>;
type Sys = frame_system::Pallet<Test>;
type Amt = Amount<Test>;

const A: Acc = 1;
const B: Acc = 2;
const L: Acc = 3;
const ONE: u128 = 1_000_000_000_000_000_000;
const MIN_RATE: u128 = 20_000_000_000_000_000;
const CAP: u128 = 1 << 50;
const START: u64 = 1_600_000_000;
const RICH: u128 = 1 << 60;
const CF: u32 = 500_000;
const LT: u32 = 550_000;
const CLOSE: u32 = 500_000;
const RESERVE: u32 = 150_000;
const INC: u128 = ONE / 100 * 110;
const INC_RESERVE: u32 = 30_000;
const FIXED: [u128; 8] = [0, 1_000_000_007, 30_000_001, 3, 500_000_003, 20_000_000, 100_000_000, 9];
const PRICES: [u128; 4] = [5, 8, 11, 40];

fn pct(n: u128) -> Rate {
    Rate::from_inner(ONE / 100 * n)
}
/// 0: no interest; 1: the usual jump model; 2: flat 10 %; 3: curve
fn model(kind: u64) -> InterestRateModel {
    match kind {
        0 => InterestRateModel::new_jump_model(pct(0), pct(0), pct(0), Ratio::from_percent(80)),
        1 => InterestRateModel::new_jump_model(pct(2), pct(10), pct(32), Ratio::from_percent(80)),
        2 => InterestRateModel::new_jump_model(pct(10), pct(10), pct(10), Ratio::from_percent(80)),
        _ => InterestRateModel::Curve(CurveModel { base_rate: pct(2) }),
    }
}
fn market(lend: CurrencyId, kind: u64) -> Market<u128> {
    Market {
        collateral_factor: Ratio::from_parts(CF),
        liquidation_threshold: Ratio::from_parts(LT),
        reserve_factor: Ratio::from_parts(RESERVE),
        close_factor: Ratio::from_parts(CLOSE),
        liquidate_incentive: Rate::from_inner(INC),
        liquidate_incentive_reserved_factor: Ratio::from_parts(INC_RESERVE),
        rate_model: model(kind),
        state: MarketState::Pending,
        supply_cap: CAP,
        borrow_cap: CAP,
        lend_token_id: lend,
    }
}

fn de(r: frame_support::dispatch::DispatchResultWithPostInfo) -> DispatchResult {
    r.map(|_| ()).map_err(|e| e.error)
}
fn layer(f: impl FnOnce() -> DispatchResult) -> DispatchResult {
    with_storage_layer(f)
}
const ASSETS: [CurrencyId; 2] = [DOT, IBTC];
const LENDS: [CurrencyId; 2] = [L_DOT, L_IBTC];
/// how many units the value roundings along one check may add up to
const SLACK: u128 = 1;

fn setup(kind: u64) {
    Clock::put(START);
    Sys::set_block_number(1);
    for w in [A, B, L] {
        for c in ASSETS {
            Tok::put(&w, c, RICH, 0);
        }
    }
    Tok::set_issuance(DOT, 3 * RICH);
    Tok::set_issuance(IBTC, 3 * RICH);
    Tok::put(&Loans::reward_account_id(), INTR, RICH, 0);
    Tok::set_issuance(INTR, RICH);
    price(0);
    loans::MinExchangeRate::<Test>::put(Rate::from_inner(MIN_RATE));
    loans::MaxExchangeRate::<Test>::put(Rate::from_inner(ONE));
    for m in 0..2 {
        let r = de(Loans::add_market(RawOrigin::Root, ASSETS[m], market(LENDS[m], kind)));
        let s = de(Loans::activate_market(RawOrigin::Root, ASSETS[m]));
        sym::check(r.is_ok() && s.is_ok(), "setup: markets");
        accrue(m);
    }
}
fn price(k: usize) {
    oracle::Aggregate::<Test>::insert(OracleKey::ExchangeRate(DOT), FixedU128::from_inner(ONE * PRICES[k]));
}
fn dots() -> u128 {
    match oracle::Aggregate::<Test>::get(OracleKey::ExchangeRate(DOT)) {
        Some(p) => p.into_inner() / ONE,
        None => panic!("price"),
    }
}
/// Brings the interest of a market up to now (any conversion of its lend token does).
fn accrue(m: usize) -> bool {
    layer(|| Loans::recompute_underlying_amount(&Amt::new(1, LENDS[m])).map(|_| ())).is_ok()
}
fn pool() -> Acc {
    Loans::account_id()
}
fn inc() -> Acc {
    Loans::incentive_reward_account_id()
}
#[derive(Clone, Copy, Default, PartialEq)]
struct Mkt {
    ok: bool,
    cash: u128,
    tb: u128,
    tr: u128,
    supply: u128,
    rate: u128,
    index: u128,
}
impl Mkt {
    fn value(&self) -> u128 {
        self.cash + self.tb - self.tr
    }
}
#[derive(Clone, Copy, Default, PartialEq)]
struct Pos {
    under: u128,
    free: u128,
    locked: u128,
    deposit: u128,
    debt: u128,
}
impl Pos {
    fn lend(&self) -> u128 {
        self.free + self.locked
    }
}
#[derive(Clone, Copy, Default, PartialEq)]
struct View {
    m: [Mkt; 2],
    /// A, B, the liquidator, the incentive reserve
    p: [[Pos; 2]; 4],
}
/// The state as it is with interest brought up to now.
fn view() -> View {
    let snap = store::snapshot();
    let mut v = View::default();
    for m in 0..2 {
        let c = ASSETS[m];
        v.m[m].ok = accrue(m);
        v.m[m].cash = Tok::free_balance(c, &pool());
        v.m[m].tb = loans::TotalBorrows::<Test>::get(c);
        v.m[m].tr = loans::TotalReserves::<Test>::get(c);
        v.m[m].supply = Tok::total_issuance(LENDS[m]);
        v.m[m].index = loans::BorrowIndex::<Test>::get(c).into_inner();
        v.m[m].rate = if v.m[m].supply == 0 { MIN_RATE } else { sym::muldiv(v.m[m].value(), ONE, v.m[m].supply, 0).unwrap_or(0) };
        for (i, w) in [A, B, L, inc()].iter().enumerate() {
            v.p[i][m] = Pos {
                under: Tok::free_balance(c, w),
                free: Tok::free_balance(LENDS[m], w),
                locked: Tok::reserved_balance(LENDS[m], w),
                deposit: loans::AccountDeposits::<Test>::get(LENDS[m], w),
                debt: Loans::current_borrow_balance(w, c).map(|x| x.amount()).unwrap_or(0),
            };
        }
    }
    store::restore(snap);
    v
}
/// value in the reference currency of `x` units of the underlying of market m, times parts per million
fn worth(v: &View, m: usize, tokens: u128, ppm: u32) -> u128 {
    let p = if m == 0 { dots() } else { 1 };
    if tokens == 0 {
        return 0;
    }
    sym::muldiv(tokens, v.m[m].rate * ppm as u128, ONE * 1_000_000 * p, 0).unwrap_or(u128::MAX >> 8)
}
fn cover(v: &View, who: usize, ppm: u32) -> u128 {
    worth(v, 0, v.p[who][0].deposit, ppm) + worth(v, 1, v.p[who][1].deposit, ppm)
}
fn owed(v: &View, who: usize) -> u128 {
    v.p[who][0].debt / dots() + v.p[who][1].debt
}
fn accounts(v: &View, steps: u128) {
    for m in 0..2 {
        let t: u128 = v.p.iter().map(|p| p[m].lend()).sum();
        sym::check(t == v.m[m].supply, "every lend token in circulation is held by someone");
        for p in v.p.iter() {
            sym::check(p[m].deposit == p[m].locked, "collateral deposits are exactly the locked lend tokens");
        }
        let d: u128 = v.p.iter().map(|p| p[m].debt).sum();
        sym::check(v.m[m].tb <= d, "the recorded total debt is never more than what borrowers owe");
        sym::check(v.m[m].tb + 2 * steps + 2 >= d, "the recorded total debt is what borrowers owe, up to rounding");
        sym::check(v.m[m].tr <= v.m[m].cash + v.m[m].tb, "reserves are covered by cash and debt");
    }
}
fn unchanged(p: &View, q: &View, skip: &[usize]) {
    for i in 0..4 {
        if !skip.contains(&i) {
            sym::check(p.p[i] == q.p[i], "nobody else's balances or debts change");
        }
    }
}
/// The worth of a lend token does not fall, but for the rounding of a redemption (one lend token at most).
fn no_dilution(p: &View, q: &View, redeem: bool) {
    for m in 0..2 {
        let (a, b) = (&p.m[m], &q.m[m]);
        if a.supply > 0 && b.supply > 0 {
            let slack = if redeem { a.value() } else { 0 };
            sym::check(b.value() * a.supply + slack >= a.value() * b.supply, "the worth of a lend token never falls");
        }
    }
}
const G_BOOKS: u64 = 1;
const G_LIMITS: u64 = 2;
const G_LIQ: u64 = 4;

fn amount(k: u64, width: u64) -> u128 {
    if k == 0 {
        sym::uint("amount", width as usize)
    } else {
        FIXED[k as usize]
    }
}
struct Op {
    who: usize,
    m: usize,
}
/// One user operation on behalf of a user against a market; all of its promises.
fn operate(code: u64, width: u64, g: u64, p: &View) -> (bool, View) {
    let (k, op) = (code / 100, code % 100);
    let before = store::snapshot();
    let own = [A, B, L];
    let (who, m) = match op {
        1..=5 | 20 => (0, 0),
        6..=9 => (1, 1),
        10..=12 => (0, 1),
        13..=14 => (1, 1),
        15..=16 => (1, 0),
        17 => (2, 0),
        18 => (2, 0),
        _ => (0, 0),
    };
    let o = Op { who, m };
    let org = || RawOrigin::Signed(own[o.who]);
    let c = ASSETS[m];
    let (mk, ps) = (p.m[m], p.p[who][m]);
    let held = g & G_BOOKS != 0;
    let lim = g & G_LIMITS != 0;
    let tokens_for = |u: u128| sym::muldiv(u, ONE, mk.rate, 0).unwrap_or(u128::MAX >> 8);
    match op {
        // mint
        1 | 6 | 17 => {
            let a = amount(k, width);
            let r = layer(|| de(Loans::mint(org(), c, a)));
            let q = view();
            let t = tokens_for(a);
            if r.is_ok() {
                sym::covered!("minted");
                if held {
                    let x = q.p[who][m];
                    sym::check(x.under + a == ps.under && q.m[m].cash == mk.cash + a, "a deposit pays its amount into the market");
                    sym::check(x.lend() == ps.lend() + t && t > 0, "a deposit earns lend tokens at the market's rate");
                    sym::check(if ps.deposit > 0 { x.free == 0 && x.deposit == ps.deposit + t } else { x.deposit == 0 }, "new lend tokens join the collateral exactly if the account uses it");
                    sym::check(x.debt == ps.debt && q.m[m].tb == mk.tb && q.m[m].tr == mk.tr, "a deposit changes no debt or reserve");
                }
                if lim {
                    sym::check(q.m[m].cash <= CAP, "a deposit stays within the supply cap");
                }
            } else if held {
                sym::check(a == 0 || t == 0 || a > ps.under || mk.cash + a > CAP || !mk.ok, "a deposit within the limits is accepted");
            }
            done(r, p, q, &before, &[who], false, g)
        }
        // all of one's lend tokens become collateral
        2 | 9 | 18 => {
            let r = layer(|| de(Loans::deposit_all_collateral(org(), c)));
            let q = view();
            if held {
                sym::check(r.is_ok() == (ps.free > 0 && ps.locked == 0), "free lend tokens can be made collateral");
                if r.is_ok() {
                    let x = q.p[who][m];
                    sym::check(x.deposit == ps.free && x.free == 0 && x.under == ps.under && x.debt == ps.debt, "all of them are locked");
                }
            }
            if r.is_ok() { sym::covered!("collateral deposited"); }
            done(r, p, q, &before, &[who], false, g)
        }
        // no longer collateral
        3 => {
            let r = layer(|| de(Loans::withdraw_all_collateral(org(), c)));
            let q = view();
            let left = cover(&q, who, CF);
            if r.is_ok() {
                sym::covered!("collateral withdrawn");
                let x = q.p[who][m];
                if held { sym::check(x.deposit == 0 && x.free == ps.deposit && ps.deposit > 0, "all of it is unlocked"); }
                if lim { sym::check(owed(p, who) <= left + SLACK, "withdrawing collateral leaves the debt covered"); }
            } else if lim {
                let other = worth(p, 1 - m, p.p[who][1 - m].deposit, CF);
                sym::check(ps.deposit == 0 || owed(p, who) + SLACK > other || !p.m[0].ok || !p.m[1].ok, "collateral that is not needed can be withdrawn");
                sym::covered!("withdrawal refused");
            }
            done(r, p, q, &before, &[who], false, g)
        }
        // redeem an amount, or everything
        4 | 5 | 7 | 8 => {
            let all = op == 5 || op == 8;
            let (u, t, r) = if all {
                let t = ps.lend();
                (sym::muldiv(t, mk.rate, ONE, 0).unwrap_or(0), t, layer(|| de(Loans::redeem_all(org(), c))))
            } else {
                let u = amount(k, width);
                (u, tokens_for(u), layer(|| de(Loans::redeem(org(), c, u))))
            };
            let q = view();
            let left = cover(&q, who, CF);
            let need = sym::muldiv(t, mk.rate, ONE, 0).unwrap_or(0);
            if r.is_ok() {
                if all { sym::covered!("redeemed everything"); } else { sym::covered!("redeemed"); }
                let x = q.p[who][m];
                if held {
                    sym::check(t > 0 && x.lend() + t == ps.lend(), "a redemption burns lend tokens at the market's rate");
                    sym::check(x.under == ps.under + u && q.m[m].cash + u == mk.cash, "a redemption pays out its amount");
                    sym::check(q.m[m].supply + t == mk.supply && x.debt == ps.debt, "and nothing else");
                }
                if lim {
                    sym::check(q.m[m].cash + 1 >= mk.tr, "a redemption never pays out the reserves");
                    sym::check(ps.deposit == 0 || owed(p, who) <= left + SLACK, "redeeming collateral leaves the debt covered");
                }
            } else if lim {
                let free = ps.deposit == 0;
                let rest = cover(p, who, CF).saturating_sub(worth(p, m, t, CF));
                let fine = t > 0 && t <= ps.lend() && mk.cash >= mk.tr + need && u <= mk.cash && (free || owed(p, who) + SLACK <= rest);
                sym::check(!fine || !p.m[0].ok || !p.m[1].ok, "an uncommitted lend token can be redeemed while there is cash");
                sym::covered!("redemption refused");
            }
            done(r, p, q, &before, &[who], true, g)
        }
        // borrow
        10 | 13 | 15 => {
            let b = amount(k, width);
            let r = layer(|| de(Loans::borrow(org(), c, b)));
            let q = view();
            if r.is_ok() {
                sym::covered!("borrowed");
                let x = q.p[who][m];
                if held {
                    sym::check(x.under == ps.under + b && q.m[m].cash + b == mk.cash, "a loan pays out its amount");
                    sym::check(x.debt == ps.debt + b && q.m[m].tb == mk.tb + b && q.m[m].tr == mk.tr, "a loan adds its amount to the debt");
                    sym::check(x.lend() == ps.lend() && x.deposit == ps.deposit, "a loan moves no lend tokens");
                }
                if lim {
                    sym::check(b > 0 && owed(&q, who) <= cover(p, who, CF) + SLACK, "a loan is covered by the discounted collateral");
                    sym::check(q.m[m].tb <= CAP, "a loan stays within the borrow cap");
                    sym::check(q.m[m].cash >= mk.tr, "a loan never pays out the reserves");
                }
            } else if lim {
                let v = if m == 0 { b / dots() } else { b };
                let fine = b > 0 && mk.tb + b <= CAP && mk.cash >= mk.tr + b && owed(p, who) + v + SLACK <= cover(p, who, CF);
                sym::check(!fine || !p.m[0].ok || !p.m[1].ok, "a covered loan is given while there is cash");
                sym::covered!("loan refused");
            }
            done(r, p, q, &before, &[who], false, g)
        }
        // repay an amount, or everything
        11 | 12 | 14 | 16 => {
            let (x, r) = if op == 12 {
                (ps.debt, layer(|| de(Loans::repay_borrow_all(org(), c))))
            } else {
                let x = amount(k, width);
                (x, layer(|| de(Loans::repay_borrow(org(), c, x))))
            };
            let q = view();
            if held {
                sym::check(r.is_ok() == (x > 0 && x <= ps.debt && x <= ps.under) || !mk.ok, "any part of a debt can be repaid, and no more");
                if r.is_ok() {
                    let y = q.p[who][m];
                    sym::check(y.debt + x == ps.debt && y.under + x == ps.under && q.m[m].cash == mk.cash + x, "a repayment lowers the debt by its amount");
                    sym::check(q.m[m].tb == mk.tb.saturating_sub(x) && q.m[m].tr == mk.tr && y.lend() == ps.lend(), "and the recorded total");
                }
            }
            if r.is_ok() { sym::covered!("repaid"); }
            done(r, p, q, &before, &[who], false, g)
        }
        // the liquidator repays A's IBTC debt for A's DOT collateral
        19 => {
            let x = amount(k, width);
            let r = layer(|| de(Loans::liquidate_borrow(RawOrigin::Signed(L), A, IBTC, x, DOT)));
            let q = view();
            let (a0, a1) = (p.p[0][0], q.p[0][0]);
            let debt = owed(p, 0);
            let limit = cover(p, 0, LT);
            let close = sym::muldiv(p.p[0][1].debt, CLOSE as u128, 1_000_000, 1).unwrap_or(0);
            let pay = sym::muldiv(x, INC, ONE, 0).unwrap_or(0);
            let seize_under = pay * dots();
            let seize = sym::muldiv(seize_under, ONE, p.m[0].rate, 0).unwrap_or(u128::MAX >> 8);
            let whole = worth(p, 0, a0.deposit, 1_000_000);
            if r.is_ok() {
                sym::covered!("liquidated");
                if g & G_LIQ != 0 {
                    sym::check(debt + SLACK > limit, "only a position past its liquidation threshold is liquidated");
                    sym::check(x > 0 && x <= close, "no more than the close factor of a debt is liquidated at once");
                    sym::check(q.p[0][1].debt + x == p.p[0][1].debt && q.p[2][1].under + x == p.p[2][1].under && q.m[1].cash == p.m[1].cash + x, "the liquidator repays exactly that much of the debt");
                    sym::check(a1.lend() + seize == a0.lend() && a1.deposit + seize == a0.deposit && a1.free == a0.free, "the borrower loses collateral worth the repayment and the incentive");
                    let base = sym::muldiv(seize, ONE, INC, 0).unwrap_or(0);
                    let kept = sym::muldiv(base, INC_RESERVE as u128, 1_000_000, 0).unwrap_or(0);
                    sym::check(q.p[3][0].lend() == p.p[3][0].lend() + kept, "the reserve gets its share of what is seized");
                    sym::check(q.p[2][0].lend() == p.p[2][0].lend() + seize - kept, "the liquidator gets the rest");
                    let l0 = p.p[2][0];
                    sym::check(if l0.deposit > 0 { q.p[2][0].free == 0 } else { q.p[2][0].deposit == 0 }, "seized lend tokens join the collateral exactly if the liquidator uses it");
                    sym::check(a1.under == a0.under && q.p[0][1].under == p.p[0][1].under && q.m[0].supply == p.m[0].supply, "nothing else of the borrower's is touched");
                    sym::check(q.m[1].tb == p.m[1].tb.saturating_sub(x), "the recorded total debt follows");
                }
            } else if g & G_LIQ != 0 {
                let fine = x > 0 && debt > limit + SLACK && x <= close && pay + 2 <= whole && x <= p.p[2][1].under;
                sym::check(!fine || !p.m[0].ok || !p.m[1].ok, "a position past its threshold can be liquidated");
                sym::covered!("liquidation refused");
            }
            done(r, p, q, &before, &[0, 2, 3], false, g)
        }
        // A sends lend tokens to B (21) or to the liquidator (22)
        21 | 22 => {
            let to = if op == 21 { 1 } else { 2 };
            let a = amount(k, width);
            let r = layer(|| <Tok as MultiCurrency<Acc>>::transfer(L_DOT, &A, &own[to], a));
            let q = view();
            if held {
                let (f, t) = (p.p[0][0], p.p[to][0]);
                sym::check(r.is_ok() == (a <= f.free), "free lend tokens can be sent, locked ones cannot");
                if r.is_ok() {
                    sym::covered!("lend tokens sent");
                    sym::check(q.p[0][0].free + a == f.free && q.p[0][0].locked == f.locked, "the sender's free lend tokens go");
                    let x = q.p[to][0];
                    sym::check(if t.deposit > 0 { x.deposit == t.deposit + a && x.free == t.free } else { x.free == t.free + a && x.deposit == 0 }, "received lend tokens join the collateral exactly if the receiver uses it");
                    sym::check(q.m == p.m, "the markets are untouched");
                }
            }
            done(r, p, q, &before, &[0, to], false, g)
        }
        // reserves: in, out, incentive out
        50 | 51 | 52 => {
            let x = amount(k, width);
            let root = sym::boolean("root");
            let org = || if root { RawOrigin::Root } else { RawOrigin::Signed(B) };
            let r = match op {
                50 => layer(|| de(Loans::reduce_reserves(org(), B, IBTC, x))),
                51 => layer(|| de(Loans::add_reserves(org(), B, IBTC, x))),
                _ => layer(|| de(Loans::reduce_incentive_reserves(org(), B, DOT, x))),
            };
            let q = view();
            if held {
                let (a, b) = (p.m[1], q.m[1]);
                let (u, w) = (p.p[1][1].under, q.p[1][1].under);
                match op {
                    50 => {
                        sym::check(r.is_ok() == (root && x > 0 && x <= a.tr && x <= a.cash) || !a.ok, "governance can take out the reserves, and no more");
                        if r.is_ok() { sym::covered!("reserves taken"); sym::check(w == u + x && b.tr + x == a.tr && b.cash + x == a.cash && b.supply == a.supply, "and they are paid out"); }
                    }
                    51 => {
                        sym::check(r.is_ok() == (root && x > 0 && x <= u) || !a.ok, "governance can add to the reserves");
                        if r.is_ok() { sym::covered!("reserves added"); sym::check(w + x == u && b.tr == a.tr + x && b.cash == a.cash + x && b.supply == a.supply, "and they are paid in"); }
                    }
                    _ => {
                        sym::check(root || r.is_err(), "only governance takes the incentive reserve");
                        if r.is_ok() {
                            sym::covered!("incentive reserve taken");
                            let t = sym::muldiv(x, ONE, p.m[0].rate, 0).unwrap_or(0);
                            sym::check(q.p[3][0].lend() + t == p.p[3][0].lend() && q.p[3][0].under == p.p[3][0].under && q.p[1][0].under == p.p[1][0].under + x, "and it is redeemed for the receiver");
                        }
                    }
                }
            }
            done(r, p, q, &before, &[1, 3], op == 52, g)
        }
        _ => panic!("op"),
    }
}
fn done(r: DispatchResult, p: &View, q: View, before: &[store::Entry], who: &[usize], redeem: bool, g: u64) -> (bool, View) {
    if r.is_ok() {
        if g & G_BOOKS != 0 {
            unchanged(p, &q, who);
            no_dilution(p, &q, redeem);
        }
    } else {
        sym::check(store::same(before, &store::snapshot()), "a refused operation changes nothing");
    }
    (r.is_ok(), q)
}

sym::harnesses! {
    /// A history of lending operations (see `operate`; 30–33 time, 40 prices).
    fn lending() {
        let w = sym::param(0) & 15;
        let g = (sym::param(0) >> 4) & 7;
        let kind = sym::param(0) >> 8;
        setup(kind);
        let n = sym::param(15);
        let mut p = view();
        for i in 0..n {
            let code = sym::param(1 + i as usize);
            match code % 100 {
                30..=33 => {
                    Clock::mutate(|t| *t += [6, 86_400, 31_536_000, 600][(code % 100 - 30) as usize]);
                    Sys::set_block_number(Sys::block_number() + 1);
                    let q = view();
                    for m in 0..2 {
                        let (a, b) = (p.m[m], q.m[m]);
                        sym::check(b.index >= a.index && b.tb >= a.tb && b.tr >= a.tr, "interest only adds to debts and reserves");
                        sym::check(b.cash == a.cash && b.supply == a.supply, "time moves no money");
                        sym::check(a.supply == 0 || b.value() >= a.value(), "lenders never lose to interest");
                        for i in 0..4 {
                            let (x, y) = (p.p[i][m], q.p[i][m]);
                            sym::check(y.debt >= x.debt && Pos { debt: x.debt, ..y } == x, "interest only adds to debts");
                        }
                        sym::check(b.ok || !a.ok, "the markets keep working");
                    }
                    p = q;
                }
                40 => {
                    price((code / 100) as usize);
                    p = view();
                }
                _ => p = operate(code, w, g, &p).1,
            }
            if g & G_BOOKS != 0 {
                accounts(&p, i as u128 + 1);
            }
        }
    }
    /// Incentive rewards along a history without interest: 60 sets the speeds, 61/62/63 claim (A, B, L),
    /// 64 A claims for the first market only; hundreds of time codes add blocks.
    fn rewards() {
        let w = sym::param(0);
        setup(0);
        let mut p = view();
        let mut speed = [[0u128; 2]; 2];
        let mut lo = [[0u128; 2]; 4];
        let mut hi = [[0u128; 2]; 4];
        let mut paid = 0u128;
        let mut emitted = 0u128;
        let own = [A, B, L, inc()];
        let mut claim = |i: usize, only: Option<usize>, p: &mut View, lo: &mut [[u128; 2]; 4], hi: &mut [[u128; 2]; 4], paid: &mut u128| {
            let had = Tok::free_balance(INTR, &own[i]);
            let r = match only {
                None => layer(|| de(Loans::claim_reward(RawOrigin::Signed(own[i])))),
                Some(m) => layer(|| de(Loans::claim_reward_for_market(RawOrigin::Signed(own[i]), ASSETS[m]))),
            };
            sym::check(r.is_ok(), "rewards can be claimed");
            let got = Tok::free_balance(INTR, &own[i]) - had;
            let ms: &[usize] = match only { None => &[0, 1], Some(0) => &[0], _ => &[1] };
            let (mut l, mut h) = (0, 0);
            for m in ms {
                l += lo[i][*m];
                h += hi[i][*m];
                lo[i][*m] = 0;
                hi[i][*m] = 0;
            }
            sym::check(got <= h, "nobody is paid more than their share of the emission");
            if only.is_none() {
                sym::check(got + 30 >= l, "everybody is paid their share of the emission");
            }
            if got > 0 { sym::covered!("reward paid"); }
            *paid += got;
            let q = view();
            sym::check(q == *p, "a claim pays rewards and touches nothing else");
            *p = q;
        };
        for i in 0..sym::param(15) {
            let code = sym::param(1 + i as usize);
            match code % 100 {
                30 => {
                    let blocks = 1 + (code / 100) as u128;
                    Sys::set_block_number(Sys::block_number() + blocks as u32);
                    for m in 0..2 {
                        let (sup, tb) = (p.m[m].supply, p.m[m].tb);
                        if sup > 0 { emitted += speed[m][0] * blocks; }
                        if tb > 0 { emitted += speed[m][1] * blocks; }
                        for k in 0..4 {
                            let x = p.p[k][m];
                            if sup > 0 && x.lend() > 0 {
                                lo[k][m] += sym::muldiv(speed[m][0] * blocks, x.lend(), sup, 0).unwrap_or(0);
                                hi[k][m] += sym::muldiv(speed[m][0] * blocks, x.lend(), sup, 1).unwrap_or(0);
                            }
                            if tb > 0 && x.debt > 0 {
                                lo[k][m] += sym::muldiv(speed[m][1] * blocks, x.debt, tb, 0).unwrap_or(0);
                                hi[k][m] += sym::muldiv(speed[m][1] * blocks, x.debt, tb, 1).unwrap_or(0);
                            }
                        }
                    }
                }
                60 => {
                    let m = (code / 100) as usize & 1;
                    let (s, b) = (sym::uint("supply speed", w as usize), sym::uint("borrow speed", w as usize));
                    let r = layer(|| de(Loans::update_market_reward_speed(RawOrigin::Signed(A), ASSETS[m], Some(s), Some(b))));
                    sym::check(r.is_err(), "only governance sets reward speeds");
                    let r = layer(|| de(Loans::update_market_reward_speed(RawOrigin::Root, ASSETS[m], Some(s), Some(b))));
                    sym::check(r.is_ok(), "governance sets reward speeds");
                    speed[m] = [s, b];
                }
                40 => {
                    price((code / 100) as usize);
                    p = view();
                }
                61..=63 => claim((code % 100 - 61) as usize, None, &mut p, &mut lo, &mut hi, &mut paid),
                64 => claim(0, Some(0), &mut p, &mut lo, &mut hi, &mut paid),
                _ => {
                    let (ok, q) = operate(code, 4, 0, &p);
                    if ok { sym::covered!("a position changed"); }
                    p = q;
                }
            }
        }
        for i in 0..4 {
            claim(i, None, &mut p, &mut lo, &mut hi, &mut paid);
        }
        sym::check(paid <= emitted, "no more is paid than was emitted");
        sym::covered!("all claimed");
    }
    /// Rate models: any jump model the pallet accepts (parameters with n bytes, scaled), any two utilisations.
    fn rates() {
        let n = sym::param(0) as usize;
        // one unit of a rate is 2^-n of 5.2, so that the accepted bounds are all within reach
        let unit = if n >= 8 { 1 } else { 5_200_000_000_000_000_000u128 >> (8 * n) };
        let r = |k: &str| sym::uint(k, n) * unit;
        let kind = sym::param(1);
        let (b, j, f) = if kind == 0 { (r("base"), r("jump"), r("full")) } else { FIX_RATES[kind as usize] };
        let point = if sym::param(2) == 0 { sym::u32("jump utilisation") } else { sym::param(2) as u32 - 1 };
        sym::assume(point <= 1_000_000);
        let m = InterestRateModel::new_jump_model(Rate::from_inner(b), Rate::from_inner(j), Rate::from_inner(f), Ratio::from_parts(point));
        let fine = b <= ONE / 10 && j <= ONE && f <= 5 * ONE && b <= j && j <= f;
        sym::check(!m.check_model() || fine, "only rising interest rates within the bounds are accepted");
        sym::check(m.check_model() || !fine || point == 0, "rising interest rates within the bounds are accepted");
        if !m.check_model() {
            sym::covered!("refused");
            return;
        }
        sym::covered!("accepted");
        if sym::param(3) == 1 { return; }
        let (u, v) = (sym::u32("utilisation"), sym::u32("higher utilisation"));
        sym::assume(u <= v && v <= 1_000_000);
        let (x, y) = (m.get_borrow_rate(Ratio::from_parts(u)), m.get_borrow_rate(Ratio::from_parts(v)));
        sym::check(x.is_some() && y.is_some(), "an accepted model has a rate for every utilisation");
        let (x, y) = (x.unwrap_or_default().into_inner(), y.unwrap_or_default().into_inner());
        sym::check(b <= x && x <= y && y <= f, "the borrow rate rises with utilisation, from the base to the full rate");
        if u == 0 { sym::check(x == b, "an unused market has the base rate"); }
        if v == 1_000_000 { sym::check(if point == v { y == j } else { y == f }, "a fully used market has the full rate"); }
        if u == point { sym::check(x == j, "the jump rate applies at the jump utilisation"); }
    }
    /// The lenders' rate is never above what borrowers pay.
    fn supply_rate() {
        let b = sym::uint("borrow rate", 8);
        let (u, f) = (sym::u32("utilisation"), sym::param(0) as u32);
        sym::assume(u <= 1_000_000);
        let s = InterestRateModel::get_supply_rate(Rate::from_inner(b), Ratio::from_parts(u), Ratio::from_parts(f)).into_inner();
        sym::check(s <= b, "lenders earn no more than borrowers pay");
        let want = sym::muldiv(b, u as u128 * (1_000_000 - f) as u128, 1_000_000_000_000, 0).unwrap_or(0);
        sym::check(s <= want && s + 2 >= want, "lenders earn the borrow rate on what is used, less the reserve share");
        sym::covered!("rate");
    }
    /// Market parameters: any update by anyone.
    fn market_params() {
        setup(1);
        let o = |k: &str| -> Option<Ratio> {
            if sym::boolean(k) {
                let x = sym::u32(k);
                sym::assume(x <= 1_000_000);
                Some(Ratio::from_parts(x))
            } else {
                None
            }
        };
        let root = sym::boolean("root");
        let org = if root { RawOrigin::Root } else { RawOrigin::Signed(A) };
        let which = sym::param(0);
        let before = store::snapshot();
        if which == 0 {
            let (cf, lt, rf, cl, ir) = (o("collateral factor"), o("liquidation threshold"), o("reserve factor"), o("close factor"), o("incentive reserve share"));
            let inc = if sym::boolean("incentive") { Some(Rate::from_inner(sym::u128("incentive"))) } else { None };
            let sc = if sym::boolean("supply cap") { Some(sym::u128("supply cap")) } else { None };
            let bc = if sym::boolean("borrow cap") { Some(sym::u128("borrow cap")) } else { None };
            let old = match Loans::market(DOT) { Ok(m) => m, Err(_) => panic!("market") };
            let r = layer(|| de(Loans::update_market(org, DOT, cf, lt, rf, cl, ir, inc, sc, bc)));
            let one = Ratio::from_parts(1_000_000);
            let (cf, lt, rf, cl, ir) = (cf.unwrap_or(old.collateral_factor), lt.unwrap_or(old.liquidation_threshold), rf.unwrap_or(old.reserve_factor), cl.unwrap_or(old.close_factor), ir.unwrap_or(old.liquidate_incentive_reserved_factor));
            let fine = cf < one && lt < one && lt >= cf && rf > Ratio::from_parts(0) && rf < one && ir < one && sc != Some(0);
            sym::check(r.is_ok() == (root && fine), "only governance sets market parameters, and only sound ones");
            if r.is_ok() {
                sym::covered!("updated");
                let want = Market { collateral_factor: cf, liquidation_threshold: lt, reserve_factor: rf, close_factor: cl, liquidate_incentive: inc.unwrap_or(old.liquidate_incentive), liquidate_incentive_reserved_factor: ir, supply_cap: sc.unwrap_or(old.supply_cap), borrow_cap: bc.unwrap_or(old.borrow_cap), ..old };
                sym::check(Loans::market(DOT) == Ok(want), "and they are what was asked for");
            } else {
                sym::covered!("refused");
                sym::check(store::same(&before, &store::snapshot()), "a refused update changes nothing");
            }
        } else {
            let asset = [DOT, INTR][sym::pick("asset", 0, 1) as usize];
            let lend = [CurrencyId::LendToken(7), L_DOT, IBTC][sym::pick("lend token", 0, 2) as usize];
            let mut m = market(lend, 1);
            let p = |k: &str| { let x = sym::u32(k); sym::assume(x <= 1_000_000); Ratio::from_parts(x) };
            m.collateral_factor = p("collateral factor");
            m.liquidation_threshold = p("liquidation threshold");
            m.reserve_factor = p("reserve factor");
            m.liquidate_incentive_reserved_factor = p("incentive reserve share");
            m.supply_cap = sym::u128("supply cap");
            m.state = [MarketState::Pending, MarketState::Active][sym::pick("state", 0, 1) as usize];
            let r = layer(|| de(Loans::add_market(org, asset, m)));
            let one = Ratio::from_parts(1_000_000);
            let fine = m.collateral_factor < one && m.liquidation_threshold < one && m.liquidation_threshold >= m.collateral_factor && m.reserve_factor > Ratio::from_parts(0) && m.reserve_factor < one && m.liquidate_incentive_reserved_factor < one && m.supply_cap > 0;
            sym::check(r.is_ok() == (root && fine && asset == INTR && lend == CurrencyId::LendToken(7) && m.state == MarketState::Pending), "only governance opens a market, once per asset and lend token, and only a sound one");
            if r.is_ok() {
                sym::covered!("opened");
                sym::check(Loans::market(INTR) == Ok(m) && Loans::underlying_id(lend) == Ok(INTR), "the market is what was asked for");
                Tok::put(&A, INTR, 1000, 0);
                sym::check(layer(|| de(Loans::mint(RawOrigin::Signed(A), INTR, 10))).is_err(), "a market is closed until it is activated");
                sym::check(layer(|| de(Loans::activate_market(RawOrigin::Signed(A), INTR))).is_err(), "only governance activates a market");
                sym::check(layer(|| de(Loans::activate_market(RawOrigin::Root, INTR))).is_ok(), "governance activates a market");
            } else {
                sym::covered!("refused");
                sym::check(store::same(&before, &store::snapshot()), "a refused market changes nothing");
            }
        }
    }
    /// Interest of one market over any state: cash, debt, reserves; p0 = width, p1 = model, p2 = seconds
    fn accrual() {
        let w = sym::param(0) as usize;
        setup(sym::param(1));
        let (cash, tb, tr) = (sym::uint("cash", w), sym::uint("debt", w), sym::uint("reserves", w));
        let fixed = sym::param(3);
        let tb = if fixed > 0 { fixed as u128 } else { tb };
        let supply = if sym::param(4) > 0 { sym::param(4) as u128 } else { sym::uint("supply", w) };
        sym::assume(tr <= cash);
        Tok::put(&pool(), IBTC, cash, 0);
        Tok::put(&B, L_IBTC, supply, 0);
        Tok::set_issuance(L_IBTC, supply);
        loans::TotalBorrows::<Test>::insert(IBTC, tb);
        loans::TotalReserves::<Test>::insert(IBTC, tr);
        let i0 = ONE + ONE / 3;
        loans::BorrowIndex::<Test>::insert(IBTC, Rate::from_inner(i0));
        loans::AccountBorrows::<Test>::insert(IBTC, A, loans::BorrowSnapshot { principal: tb, borrow_index: Rate::from_inner(i0) });
        let dt = sym::param(2);
        Clock::mutate(|t| *t += dt);
        let before = store::snapshot();
        let ok = accrue(1);
        let (tb1, tr1) = (loans::TotalBorrows::<Test>::get(IBTC), loans::TotalReserves::<Test>::get(IBTC));
        let i1 = loans::BorrowIndex::<Test>::get(IBTC).into_inner();
        if !ok {
            sym::covered!("exchange rate out of range");
            sym::check(store::same(&before, &store::snapshot()), "refused");
            return;
        }
        sym::covered!("accrued");
        // the utilisation, the borrow rate, and compound interest per second
        let util = if tb == 0 { 0 } else { sym::muldiv(tb, 1_000_000, cash + tb - tr, 0).unwrap_or(0) };
        sym::check(tb == 0 && tr == 0 && cash == 0 || loans::UtilizationRatio::<Test>::get(IBTC) == Ratio::from_parts(util as u32), "the utilisation is debt over cash plus debt less reserves");
        let rate = match loans::Markets::<Test>::get(IBTC).map(|m| m.rate_model.get_borrow_rate(Ratio::from_parts(util as u32))) {
            Some(Some(r)) => r.into_inner(),
            _ => panic!("rate"),
        };
        let growth = pow(ONE + rate / 31_536_000, dt);
        let want = sym::muldiv(i0, growth, ONE, 2).unwrap_or(0);
        let slack = 400 + want / 10_000_000_000;
        sym::check(i1 <= want + slack && want <= i1 + slack, "interest compounds every second at the borrow rate");
        let around = |k: usize| (sym::muldiv(tb, i1 - 2, i0, k).unwrap_or(0), sym::muldiv(tb, i1 + 2, i0, k).unwrap_or(0));
        let (lo, hi) = around(0);
        sym::check(lo <= tb1 && tb1 <= hi, "the total debt grows with the index, rounded down");
        let earned = tb1 - tb;
        let share = sym::muldiv(earned, RESERVE as u128, 1_000_000, 0).unwrap_or(0);
        sym::check(tr1 == tr + share, "the reserves get their share of the interest");
        let d = Loans::current_borrow_balance(&A, IBTC).map(|x| x.amount()).unwrap_or(0);
        let (lo, hi) = around(1);
        sym::check(d >= tb1 && lo <= d && d <= hi, "a borrower owes their debt grown with the index, rounded up");
        let x = loans::ExchangeRate::<Test>::get(IBTC).into_inner();
        let v = sym::muldiv(cash + tb1 - tr1, ONE, supply, 0).unwrap_or(0);
        sym::check(supply == 0 || x == v, "the exchange rate is cash plus debt less reserves, per lend token");
        sym::check(x >= MIN_RATE && x < ONE, "the exchange rate stays in its range");
        sym::check(accrue(1) && loans::TotalBorrows::<Test>::get(IBTC) == tb1 && loans::TotalReserves::<Test>::get(IBTC) == tr1, "interest is charged once");
    }
}
const FIX_RATES: [(u128, u128, u128); 4] = [(0, 0, 0), (ONE / 50, ONE / 10, ONE / 100 * 32), (ONE / 10, ONE, 5 * ONE), (0, 0, ONE)];
/// x^n in fixed point, by squaring
fn pow(x: u128, n: u64) -> u128 {
    let (mut r, mut b, mut n) = (ONE, x, n);
    while n > 0 {
        if n & 1 == 1 {
            r = sym::muldiv(r, b, ONE, 2).unwrap_or(0);
        }
        b = sym::muldiv(b, b, ONE, 2).unwrap_or(0);
        n >>= 1;
    }
    r
}
