//! Harnesses for escrow, supply, annuity, farming, tx-pause and clients-info.
#![allow(clippy::all)]
use frame_support::storage::with_storage_layer;
use frame_support::traits::{ConstU32, Contains, GetCallMetadata, Hooks, IsSubType};
use frame_support::{parameter_types, store, BoundedVec, PalletId};
use frame_system::{EnsureRoot, RawOrigin};
use orml_traits::{MultiCurrency, MultiLockableCurrency};
use primitives::{CurrencyId, LpToken, TokenSymbol};
use reward::RewardsApi;
use sp_core::H256;
use sp_runtime::traits::{BlakeTwo256, Convert, IdentityLookup};
use sp_runtime::{DispatchError, DispatchResult, FixedI128, FixedU128};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev;
macro_rules! ev {
    ($($t:ty),* $(,)?) => { $(impl From<$t> for Ev { fn from(_: $t) -> Ev { Ev } })* };
}
pub struct EscrowPool;
pub struct FarmingPool;
ev!(
    reward::Event<Test, EscrowPool>,
    reward::Event<Test, FarmingPool>,
    escrow::Event<Test>,
    supply::Event<Test>,
    annuity::Event<Test>,
    farming::Event<Test>,
    tx_pause::Event<Test>,
    clients_info::Event<Test>,
);
type Acc = u64;
#[derive(Clone, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub struct Call {
    pallet: u8,
    call: u8,
}
impl frame_system::Config for Test {
    type RuntimeOrigin = RawOrigin<Acc>;
    type RuntimeCall = Call;
    type Nonce = u32;
    type BlockNumber = u32;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = Acc;
    type Lookup = IdentityLookup<Acc>;
    type RuntimeEvent = Ev;
    type DbWeight = ();
}
const NATIVE: CurrencyId = CurrencyId::Token(TokenSymbol::INTR);
const REWARD: CurrencyId = CurrencyId::Token(TokenSymbol::DOT);
const LP: CurrencyId = CurrencyId::LpToken(LpToken::Token(TokenSymbol::DOT), LpToken::Token(TokenSymbol::IBTC));
const LP_REV: CurrencyId = CurrencyId::LpToken(LpToken::Token(TokenSymbol::IBTC), LpToken::Token(TokenSymbol::DOT));
const TREASURY: Acc = 77;
const PERIOD: u32 = 8;
const SPAN: u32 = 4;
parameter_types! {
    pub const NativeId: CurrencyId = NATIVE;
    pub const Span: u32 = SPAN;
    pub const MaxPeriod: u32 = PERIOD;
    pub const SupplyPalletId: PalletId = PalletId(*b"supp/mod");
    pub const AnnuityPalletId: PalletId = PalletId(*b"annu/mod");
    pub const FarmingPalletId: PalletId = PalletId(*b"farm/mod");
    pub const TreasuryAccount: Acc = TREASURY;
    pub const InflationPeriod: u32 = 5;
    pub const EmissionPeriod: u32 = 7;
    pub const FarmPeriod: u32 = 3;
    pub const TooLong: bool = true;
}
impl orml_tokens::Config for Test {
    type Balance = u128;
    type CurrencyId = CurrencyId;
    type CurrencyHooks = ();
}
impl reward::Config<EscrowPool> for Test {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = Acc;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<1>;
}
impl reward::Config<FarmingPool> for Test {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = Acc;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<2>;
}
pub struct BlockToBalance;
impl Convert<u32, u128> for BlockToBalance {
    fn convert(a: u32) -> u128 {
        a.into()
    }
}
type Native = orml_tokens::CurrencyAdapter<Test, NativeId>;
impl escrow::Config for Test {
    type RuntimeEvent = Ev;
    type BlockNumberToBalance = BlockToBalance;
    type Currency = Native;
    type Span = Span;
    type MaxPeriod = MaxPeriod;
    type EscrowRewards = EscRewards;
    type WeightInfo = ();
}
/// Records what was announced; passes it on to the annuity as the runtime does.
pub struct Handler;
impl supply::OnInflation<Acc> for Handler {
    type Currency = Native;
    fn on_inflation(from: &Acc, amount: u128) {
        Told::put((*from, amount, Told::get().map(|x| x.2).unwrap_or(0) + 1));
    }
}
pub struct ToldPrefix;
impl frame_support::storage::types::StorageInstance for ToldPrefix {
    const ID: u64 = 0xfee1;
    fn instance() -> u64 {
        0
    }
}
type Told = frame_support::storage::types::StorageValue<ToldPrefix, (Acc, u128, u32), frame_support::storage::types::OptionQuery>;
impl supply::Config for Test {
    type SupplyPalletId = SupplyPalletId;
    type RuntimeEvent = Ev;
    type UnsignedFixedPoint = FixedU128;
    type Currency = Native;
    type InflationPeriod = InflationPeriod;
    type OnInflation = Handler;
    type WeightInfo = ();
}
/// As the runtimes do for escrow block rewards.
pub struct Provider;
impl annuity::BlockRewardProvider<Acc> for Provider {
    type Currency = Native;
    fn distribute_block_reward(_from: &Acc, amount: u128) -> DispatchResult {
        <EscRewards as RewardsApi<(), Acc, u128>>::distribute_reward(&(), NATIVE, amount)
    }
    fn withdraw_reward(who: &Acc) -> Result<u128, DispatchError> {
        <EscRewards as RewardsApi<(), Acc, u128>>::withdraw_reward(&(), who, NATIVE)
    }
}
pub struct Wrapped;
impl frame_support::traits::Get<u128> for Wrapped {
    fn get() -> u128 {
        Tok::total_issuance(REWARD)
    }
}
impl annuity::Config for Test {
    type AnnuityPalletId = AnnuityPalletId;
    type RuntimeEvent = Ev;
    type Currency = Native;
    type BlockRewardProvider = Provider;
    type BlockNumberToBalance = BlockToBalance;
    type EmissionPeriod = EmissionPeriod;
    type TotalWrapped = Wrapped;
    type WeightInfo = ();
}
impl farming::Config for Test {
    type RuntimeEvent = Ev;
    type FarmingPalletId = FarmingPalletId;
    type TreasuryAccountId = TreasuryAccount;
    type RewardPeriod = FarmPeriod;
    type RewardPools = FarmRewards;
    type MultiCurrency = Tok;
    type WeightInfo = ();
}
type Tok = orml_tokens::Pallet<Test>;
type Esc = escrow::Pallet<Test>;
type EscRewards = reward::Pallet<Test, EscrowPool>;
type FarmRewards = reward::Pallet<Test, FarmingPool>;
type Sup = supply::Pallet<Test>;
type Ann = annuity::Pallet<Test>;
type Farm = farming::Pallet<Test>;
type Sys = frame_system::Pallet<Test>;

fn layer<X>(f: impl FnOnce() -> Result<X, DispatchError>) -> Result<X, DispatchError> {
    with_storage_layer(f)
}

// ---------------------------------------------------------------- escrow
const A: Acc = 1;
const B: Acc = 2;
const FREE: u128 = 5_000_000_001;
#[derive(Clone, Copy, Default)]
struct Lock {
    amount: u128,
    end: u32,
    stake: u128,
}
struct Book {
    now: u32,
    lock: [Lock; 2],
    slow: Option<(u32, u32)>,
    barred: bool,
}
impl Book {
    fn balance(&self, u: usize, at: u32) -> u128 {
        let l = self.lock[u];
        if at >= l.end { 0 } else { l.amount / PERIOD as u128 * (l.end - at) as u128 }
    }
    fn limit(&self, u: usize) -> u128 {
        if u == 0 && self.barred {
            return 0;
        }
        match self.slow {
            Some((s, e)) if u == 0 => {
                let slope = FREE / (e - s) as u128;
                let left = if self.now < e { (e - self.now) as u128 } else { 0 };
                (slope * (e - s) as u128).saturating_sub(slope * left)
            }
            _ => FREE,
        }
    }
}
fn amount(op: u64) -> u128 {
    if op >= 100 { [0, 1_000_000_007, 333_333_331, 9, 7][(op / 100) as usize] } else { sym::uint("amount", 4) }
}
fn who(u: usize) -> Acc {
    [A, B][u]
}
fn height(now: u32) -> u32 {
    if sym::param(0) & 4 != 0 {
        return sym::pick("height", 0, (now + PERIOD + SPAN + 1) as u64) as u32;
    }
    (now / SPAN + sym::pick("height", 0, 3) as u32) * SPAN + 2
}
fn esc_agrees(b: &Book) {
    for u in 0..2 {
        let l = b.lock[u];
        sym::check(escrow::Locked::<Test>::get(&who(u)).amount == l.amount, "the recorded lock is what was put in");
        for d in [0, 1, 5, PERIOD, PERIOD + 1] {
            sym::check(Esc::balance_at(&who(u), Some(b.now + d)) == b.balance(u, b.now + d), "voting power is the locked amount over the longest period, times the time left, and nothing afterwards");
        }
        let frozen = FREE.saturating_sub(l.amount);
        sym::check(Tok::ensure_can_withdraw(NATIVE, &who(u), frozen).is_ok() && (l.amount == 0 || Tok::ensure_can_withdraw(NATIVE, &who(u), frozen + 1).is_err()), "exactly the locked tokens cannot be spent");
        sym::check(Tok::free_balance(NATIVE, &who(u)) == FREE, "locking moves no tokens");
        sym::check(<EscRewards as RewardsApi<(), Acc, u128>>::get_stake(&(), &who(u)) == Ok(l.stake), "the stake in the reward pool is the voting power when the account was last updated");
    }
    sym::check(<EscRewards as RewardsApi<(), Acc, u128>>::get_total_stake(&()) == Ok(b.lock[0].stake + b.lock[1].stake), "the total stake is the sum of the stakes");
}
fn esc_supply(b: &Book) {
    for d in [0, 1, 3, 4, 6, 9] {
        let t = b.now + d;
        sym::check(Esc::total_supply(Some(t)) == b.balance(0, t) + b.balance(1, t), "the total voting power is the sum of all voting power, now and later");
    }
    sym::check(<Esc as frame_support::traits::Currency<Acc>>::total_issuance() == b.balance(0, b.now) + b.balance(1, b.now), "the issuance is the total voting power");
}
/// op, tens digit = user, for ops < 40: x1 create, x2 increase amount, x3 increase height, x4 withdraw, x5 update;
/// 50+d: d blocks pass; 60: any number of blocks up to 5; 70: A is limited; 71: A is barred. Hundreds: fixed amount.
fn esc_step(b: &mut Book, op: u64) {
    let o = op % 100;
    if o >= 50 && o < 60 {
        b.now += (o - 50) as u32;
        Sys::set_block_number(b.now);
        return;
    }
    if o == 60 {
        b.now += sym::pick("blocks", 1, 6) as u32;
        Sys::set_block_number(b.now);
        return;
    }
    if o == 70 || o == 71 {
        let root = sym::boolean("root");
        let org = if root { RawOrigin::Root } else { RawOrigin::Signed(A) };
        let (s, e) = (b.now, b.now + 6);
        let r = if o == 70 { layer(|| Esc::set_account_limit(org, A, s, e).map(|_| ()).map_err(|e| e.error)) } else { layer(|| Esc::set_account_block(org, A).map(|_| ()).map_err(|e| e.error)) };
        sym::check(r.is_ok() == root, "only governance limits or bars accounts");
        if root && o == 70 {
            b.slow = Some((s, e));
        } else if root {
            b.barred = true;
        }
        return;
    }
    let u = (o / 10) as usize;
    let l = b.lock[u];
    let live = l.end > b.now && l.amount > 0;
    let max = b.now + PERIOD;
    let before = store::snapshot();
    let org = RawOrigin::Signed(who(u));
    let (r, allowed, new) = match o % 10 {
        1 => {
            let (a, h) = (amount(op), height(b.now));
            let end = h / SPAN * SPAN;
            let new = Lock { amount: a, end, stake: 0 };
            (layer(|| Esc::create_lock(org, a, h)), l.amount == 0 && end > b.now && end <= max && a > 0, new)
        }
        2 => {
            let a = amount(op);
            (layer(|| Esc::increase_amount(org, a)), live && a > 0, Lock { amount: l.amount + a, ..l })
        }
        3 => {
            let h = height(b.now);
            let end = h / SPAN * SPAN;
            (layer(|| Esc::increase_unlock_height(org, h)), live && end > l.end && end <= max, Lock { end, ..l })
        }
        5 => (layer(|| Esc::update_user_stake(RawOrigin::Signed(A), who(u))), true, l),
        _ => {
            let r = layer(|| Esc::withdraw(org));
            sym::check(r.is_ok() == (b.now >= l.end), "a lock is withdrawn exactly when it has expired");
            if r.is_ok() {
                b.lock[u] = Lock::default();
            } else {
                sym::check(store::same(&before, &store::snapshot()), "a refused call changes nothing");
            }
            sym::observe(r.is_ok() as u64, "ok");
            return;
        }
    };
    let fine = allowed && new.amount >= PERIOD as u128 && new.amount <= b.limit(u);
    sym::check(r.is_ok() == fine, "a lock is made or extended exactly within the rules: longer, larger, not expired, within the period and within the free, unrestricted balance");
    sym::observe(r.is_ok() as u64, "ok");
    if r.is_ok() {
        b.lock[u] = new;
        b.lock[u].stake = b.balance(u, b.now);
        sym::covered!("a lock was made or changed");
    } else {
        sym::check(store::same(&before, &store::snapshot()), "a refused call changes nothing");
    }
}
fn esc_start() -> Book {
    for w in [A, B] {
        Tok::put(&w, NATIVE, FREE, 0);
    }
    Tok::set_issuance(NATIVE, 2 * FREE);
    let now = 1;
    Sys::set_block_number(now);
    Book { now, lock: [Lock::default(); 2], slow: None, barred: false }
}

// ---------------------------------------------------------------- supply and annuity
const ONE: u128 = 1_000_000_000_000_000_000;

// ---------------------------------------------------------------- farming
const FARMER: [Acc; 2] = [11, 12];

// ---------------------------------------------------------------- tx-pause
impl sp_runtime::traits::Dispatchable for Call {
    type RuntimeOrigin = RawOrigin<Acc>;
    type Config = ();
    type Info = ();
    type PostInfo = ();
    fn dispatch(self, _: RawOrigin<Acc>) -> sp_runtime::DispatchResultWithInfo<()> {
        Ok(())
    }
}
impl frame_support::dispatch::GetDispatchInfo for Call {
    fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
        Default::default()
    }
}
const NAMES: [&str; 6] = ["tx-pause", "aa", "ab", "b", "toolongname", ""];
impl GetCallMetadata for Call {
    fn get_module_names() -> &'static [&'static str] {
        &NAMES
    }
    fn get_call_names(_: &str) -> &'static [&'static str] {
        &NAMES
    }
    fn get_call_metadata(&self) -> frame_support::traits::CallMetadata {
        frame_support::traits::CallMetadata { function_name: NAMES[self.call as usize], pallet_name: NAMES[self.pallet as usize] }
    }
}
impl From<frame_system::Call<Test>> for Call {
    fn from(_: frame_system::Call<Test>) -> Call {
        Call { pallet: 0, call: 0 }
    }
}
impl IsSubType<tx_pause::Call<Test>> for Call {
    fn is_sub_type(&self) -> Option<&tx_pause::Call<Test>> {
        None
    }
}
type Name = BoundedVec<u8, ConstU32<8>>;
pub struct White;
impl Contains<(Name, Option<Name>)> for White {
    fn contains(n: &(Name, Option<Name>)) -> bool {
        &n.0[..] == b"ab" && matches!(&n.1, Some(c) if &c[..] == b"b")
    }
}
impl tx_pause::Config for Test {
    type RuntimeEvent = Ev;
    type RuntimeCall = Call;
    type PauseOrigin = EnsureRoot<Acc>;
    type UnpauseOrigin = EnsureRoot<Acc>;
    type WhitelistCallNames = White;
    type MaxNameLen = ConstU32<8>;
    type PauseTooLongNames = TooLong;
    type WeightInfo = ();
}
type Pause = tx_pause::Pallet<Test>;
impl clients_info::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<4>;
    type MaxUriLength = ConstU32<4>;
}
type Clients = clients_info::Pallet<Test>;
fn origin() -> (RawOrigin<Acc>, bool) {
    match sym::pick("origin", 0, 2) {
        0 => (RawOrigin::Root, true),
        1 => (RawOrigin::Signed(sym::u64("signer")), false),
        _ => (RawOrigin::None, false),
    }
}

sym::harnesses! {
    /// A history of locks by two accounts; the last parameter is the number of operations.
    fn escrow_hist() {
        let mut b = esc_start();
        let n = sym::param(15) as usize;
        for i in 0..n {
            esc_step(&mut b, sym::param(1 + i));
            if sym::param(0) & 1 != 0 {
                esc_agrees(&b);
            }
            if sym::param(0) & 2 != 0 && i + 1 == n {
                esc_supply(&b);
            }
        }
    }
    /// Inflation over n blocks; parameter 1: which of rate and issuance is fixed.
    fn inflation() {
        let n = sym::param(0);
        let (rate, issued) = if sym::param(1) == 0 { (sym::u128("rate"), 2_222_222_227u128) } else { (ONE / 50 * 3 + 7, sym::uint("issuance", 12)) };
        Tok::set_issuance(NATIVE, issued);
        let root = sym::boolean("root");
        let at = sym::uint("start", 3) as u32;
        sym::assume(rate <= ONE * ONE);
        let org = if root { RawOrigin::Root } else { RawOrigin::Signed(A) };
        let r = layer(|| Sup::set_start_height_and_inflation(org, at, FixedU128::from_inner(rate)).map(|_| ()).map_err(|e| e.error));
        sym::check(r.is_ok() == root, "only governance sets the inflation");
        let begin = sym::uint("block", 3) as u32;
        let mut due = if root { Some(at) } else { None };
        let mut total = issued;
        let mut count = 0u32;
        let me = Sup::account_id();
        for i in 0..n {
            let now = begin + i as u32;
            let _ = Sup::on_initialize(now);
            if due == Some(now) {
                due = Some(now + 5);
                let m = sym::muldiv(rate, total, ONE, 0).unwrap_or(u128::MAX);
                total += m;
                count += 1;
                sym::check(Sup::last_emission() == m, "the emission is recorded");
                sym::check(Told::get() == Some((me, m, count)), "the inflation is handed on once, in full");
                sym::covered!("inflated");
            }
            sym::check(Tok::total_issuance(NATIVE) == total && Tok::free_balance(NATIVE, &me) == total - issued, "exactly the rate of the issuance is minted, at the due block only");
            sym::check(Sup::start_height() == due, "inflation is due again one period later");
            sym::check(Told::get().map(|x| x.2).unwrap_or(0) == count, "nothing is handed on at other blocks");
        }
    }
    /// Block rewards: parameters are operations. 1: block; 2: withdraw by A; 3: withdraw by B; 4: new funds and update; 5: cap per wrapped token; 6 update by anyone; 7: update without funds
    fn annuity_hist() {
        let me = Ann::account_id();
        let held = sym::uint("funds", 4);
        Tok::put(&me, NATIVE, held, 0);
        Tok::set_issuance(NATIVE, 1 << 60);
        let wrapped = 13u128;
        Tok::set_issuance(REWARD, wrapped);
        for (w, s) in [(A, 3u128), (B, 5)] {
            sym::check(<EscRewards as RewardsApi<(), Acc, u128>>::deposit_stake(&(), &w, s).is_ok(), "setup");
        }
        let n = sym::param(15) as usize;
        let mut rate = 0u128;
        let mut cap = None;
        for i in 0..n {
            let before = store::snapshot();
            match sym::param(1 + i) {
                1 => {
                    let want = match cap { Some(c) if c * wrapped < rate => c * wrapped, _ => rate };
                    sym::check(Ann::min_reward_per_block() == want, "the reward of a block is a period's share of the funds, at most the cap per wrapped token");
                    let total = reward::TotalRewards::<Test, EscrowPool>::get(NATIVE);
                    let _ = Ann::on_initialize(1);
                    let after = reward::TotalRewards::<Test, EscrowPool>::get(NATIVE);
                    sym::check(after.into_inner() - total.into_inner() == (want * ONE) as i128, "every block distributes exactly its reward");
                    sym::covered!("distributed");
                }
                o @ (2 | 3) => {
                    let w = if o == 2 { A } else { B };
                    let have = Tok::free_balance(NATIVE, &w);
                    let pot = Tok::free_balance(NATIVE, &me);
                    let due = <EscRewards as RewardsApi<(), Acc, u128>>::compute_reward(&(), &w, NATIVE).unwrap_or(0);
                    let r = layer(|| Ann::withdraw_rewards(RawOrigin::Signed(w)).map(|_| ()).map_err(|e| e.error));
                    sym::check(r.is_ok(), "rewards can be withdrawn");
                    if r.is_ok() {
                        sym::check(Tok::free_balance(NATIVE, &w) == have + due && Tok::free_balance(NATIVE, &me) == pot - due, "exactly the earned rewards are paid");
                        sym::check(<EscRewards as RewardsApi<(), Acc, u128>>::compute_reward(&(), &w, NATIVE) == Ok(0), "rewards are paid once");
                    } else {
                        sym::check(store::same(&before, &store::snapshot()), "a refused call changes nothing");
                    }
                }
                5 => {
                    let (org, root) = origin();
                    let c = sym::uint("cap", 3);
                    let r = layer(|| Ann::set_reward_per_wrapped(org, c).map(|_| ()).map_err(|e| e.error));
                    sym::check(r.is_ok() == root, "only governance sets the cap");
                    if root { cap = Some(c); }
                }
                o => {
                    if o == 4 {
                        let more = sym::uint("more", 4);
                        Tok::put(&me, NATIVE, Tok::free_balance(NATIVE, &me) + more, 0);
                    }
                    let (org, root) = if o == 6 { origin() } else { (RawOrigin::Root, true) };
                    let r = layer(|| Ann::update_rewards(org).map(|_| ()).map_err(|e| e.error));
                    sym::check(r.is_ok() == root, "only governance renews the reward");
                    if root { rate = Tok::free_balance(NATIVE, &me) / 7; }
                }
            }
            sym::check(Ann::reward_per_block() == rate, "the reward of a block is a period's share of the funds");
            let mut owed = 0;
            for w in [A, B] {
                owed += <EscRewards as RewardsApi<(), Acc, u128>>::compute_reward(&(), &w, NATIVE).unwrap_or(u128::MAX / 4);
            }
            sym::check(owed <= Tok::free_balance(NATIVE, &me), "the earned rewards are covered by the funds held");
        }
    }
    /// Farming: operations x1 deposit, x2 withdraw, x3 claim (tens: user); 30 period, 31 any block, 32 new schedule, 33 remove, 34 by anyone
    fn farming_hist() {
        let start = sym::uint("treasury", 6);
        Tok::put(&TREASURY, REWARD, start, 0);
        Tok::set_issuance(REWARD, start);
        for (w, s) in [(FARMER[0], 300u128), (FARMER[1], 700)] {
            Tok::put(&w, LP, s, 0);
        }
        let pool = Farm::pool_account_id(&LP);
        let n = sym::param(15) as usize;
        let mut staked = [0u128; 2];
        let all = [300u128, 700];
        let mut now = 3u32;
        let (mut count, mut per) = (0u32, 0u128);
        let mut exists = false;
        for i in 0..n {
            let op = sym::param(1 + i);
            let o = op % 100;
            let lp = if sym::param(0) & 1 != 0 && sym::boolean("reversed") { LP_REV } else { LP };
            let before = store::snapshot();
            let u = (o / 10) as usize;
            if u < 2 {
                let w = FARMER[u];
                let org = RawOrigin::Signed(w);
                match o % 10 {
                    1 => {
                        let len = sym::u8("length") as u32;
                        let enough = len >= <FarmRewards as RewardsApi<CurrencyId, Acc, u128>>::reward_currencies_len(&LP);
                        let r = layer(|| Farm::deposit(org, lp, len));
                        sym::check(r.is_ok() == enough, "depositing needs a sufficient bound on the number of rewards");
                        if r.is_ok() { staked[u] = all[u]; }
                    }
                    2 => {
                        let a = if op >= 100 { 100 * (op / 100) as u128 } else { sym::uint("withdraw", 4) };
                        let r = layer(|| Farm::withdraw(org, lp, a, 5));
                        sym::check(r.is_ok() == (a <= staked[u]), "up to the staked tokens can be withdrawn");
                        if r.is_ok() { staked[u] -= a; }
                    }
                    _ => {
                        let have = Tok::free_balance(REWARD, &w);
                        let pot = Tok::free_balance(REWARD, &pool);
                        let due = <FarmRewards as RewardsApi<CurrencyId, Acc, u128>>::compute_reward(&LP, &w, REWARD).unwrap_or(0);
                        let r = layer(|| Farm::claim(org, lp, REWARD));
                        sym::check(r.is_ok(), "earned rewards can be claimed");
                        if r.is_ok() {
                            sym::check(Tok::free_balance(REWARD, &w) == have + due && Tok::free_balance(REWARD, &pool) == pot - due, "exactly the earned rewards are paid, from the pool's account");
                            sym::check(<FarmRewards as RewardsApi<CurrencyId, Acc, u128>>::compute_reward(&LP, &w, REWARD) == Ok(0), "rewards are paid once");
                        }
                    }
                }
            } else {
                match o {
                    30 | 31 => {
                        if o == 30 { now = (now / 3 + 1) * 3 } else { now += 1 + sym::pick("blocks", 0, 2) as u32 }
                        let total = reward::TotalRewards::<Test, FarmingPool>::get(REWARD);
                        let _ = Farm::on_initialize(now);
                        let after = reward::TotalRewards::<Test, FarmingPool>::get(REWARD);
                        let given = (after.into_inner() - total.into_inner()) as u128;
                        let pays = now % 3 == 0 && count > 0 && (per == 0 || staked[0] + staked[1] > 0);
                        sym::check(given == if pays { per * ONE } else { 0 }, "a period pays exactly its share, while the schedule runs and someone is staked");
                        if pays { count -= 1; sym::covered!("distributed"); } else if now % 3 == 0 && count == 0 { exists = false; }
                    }
                    _ => {
                        let (org, root) = if o >= 34 { origin() } else { (RawOrigin::Root, true) };
                        if o == 33 || o == 35 {
                            let r = layer(|| Farm::remove_reward_schedule(org, lp, REWARD).map(|_| ()).map_err(|e| e.error));
                            sym::check(r.is_ok() == root, "only governance removes a schedule");
                            if root { count = 0; per = 0; exists = false; }
                        } else {
                            let a = sym::uint("reward", 4);
                            let k = if op >= 100 { (op / 100) as u32 } else { sym::u32("periods") };
                            let left = Tok::free_balance(REWARD, &TREASURY);
                            let rest = count as u128 * per;
                            let r = layer(|| Farm::update_reward_schedule(org, lp, REWARD, k, a));
                            let fits = (count as u64 + k as u64) <= u32::MAX as u64;
                            sym::check(r.is_ok() == (root && a <= left && fits), "governance extends a schedule with funds of the treasury");
                            if r.is_ok() {
                                sym::check(Tok::free_balance(REWARD, &TREASURY) == left - a, "the rewards are funded by the treasury");
                                count += k;
                                exists = true;
                                let s = Farm::reward_schedules(LP, REWARD);
                                per = s.per_period;
                                sym::check(s.period_count == count, "the periods add up");
                                sym::check(per * count as u128 <= rest + a, "no more is scheduled than was left and added");
                            } else {
                                sym::check(store::same(&before, &store::snapshot()), "a refused call changes nothing");
                            }
                        }
                    }
                }
            }
            let s = Farm::reward_schedules(LP, REWARD);
            sym::check(!exists || (s.period_count == count && s.per_period == per), "the schedule counts down");
            sym::check(exists || s.period_count == 0, "the schedule ends");
            let mut owed = s.per_period * s.period_count as u128;
            for u in 0..2 {
                let w = FARMER[u];
                sym::check(Tok::reserved_balance(LP, &w) == staked[u] && Tok::free_balance(LP, &w) == all[u] - staked[u], "staked tokens are reserved and come back in full");
                sym::check(<FarmRewards as RewardsApi<CurrencyId, Acc, u128>>::get_stake(&LP, &w) == Ok(staked[u]), "the stake is what was staked");
                owed += <FarmRewards as RewardsApi<CurrencyId, Acc, u128>>::compute_reward(&LP, &w, REWARD).unwrap_or(u128::MAX / 4);
            }
            sym::check(owed <= Tok::free_balance(REWARD, &pool), "the pool covers the earned and the scheduled rewards");
        }
    }
    /// Pausing: n calls pause or unpause anything, then any call.
    fn pausing() {
        let mut pallets: Vec<Name> = vec![];
        let mut calls: Vec<(Name, Name)> = vec![];
        let name = |i: u64| -> Name { Name::try_from(NAMES[i as usize].as_bytes().to_vec()).unwrap_or_default() };
        let white = |p: &Name, c: &Name| &p[..] == b"ab" && &c[..] == b"b";
        for _ in 0..sym::param(0) {
            let (org, root) = origin();
            let p = name(sym::pick("pallet", 0, 3));
            let whole = sym::boolean("whole pallet");
            let c = if whole { name(5) } else { name(sym::pick("call", 1, 3)) };
            let full = (p.clone(), if whole { None } else { Some(c.clone()) });
            let paused = pallets.contains(&p) || (!whole && !white(&p, &c) && calls.contains(&(p.clone(), c.clone())));
            let shown = if !whole && white(&p, &c) { false } else { paused };
            let before = store::snapshot();
            let r = if sym::boolean("pause") {
                let r = Pause::pause(org, full.clone());
                let fine = root && &p[..] != b"tx-pause" && !shown && !(!whole && white(&p, &c));
                sym::check(r.is_ok() == fine, "only governance pauses; never the pausing pallet itself or an exempt call");
                if fine { if whole { pallets.push(p) } else { calls.push((p, c)) } }
                r
            } else {
                let r = Pause::unpause(org, full.clone());
                sym::check(r.is_ok() == (root && shown), "governance unpauses what is paused");
                if r.is_ok() { if whole { pallets.retain(|x| *x != p) } else { calls.retain(|x| *x != (p.clone(), c.clone())) } }
                r
            };
            sym::check(r.is_ok() || store::same(&before, &store::snapshot()), "a refused call changes nothing");
        }
        let call = Call { pallet: sym::pick("pallet called", 0, 4) as u8, call: sym::pick("call called", 1, 4) as u8 };
        let long = call.pallet == 4 || call.call == 4;
        let (p, c) = (name(call.pallet as u64), name(call.call as u64));
        let stop = if long { true } else { !white(&p, &c) && (pallets.contains(&p) || calls.contains(&(p.clone(), c.clone()))) };
        sym::check(<Pause as Contains<Call>>::contains(&call) == !stop, "a call passes exactly if neither it nor its pallet is paused, or it is exempt");
        sym::check(long || &p[..] != b"tx-pause" || !stop, "pausing can always be undone");
        sym::covered!("any call");
    }
    /// Client releases: two pending, one current, then an upgrade.
    fn clients() {
        type N = BoundedVec<u8, ConstU32<4>>;
        let name = |k: &str| -> N { N::try_from(sym::byte_vec(k, sym::param(0) as usize)).unwrap_or_default() };
        let rel = |k: &str| clients_info::ClientRelease { uri: N::try_from(sym::byte_vec(k, 2)).unwrap_or_default(), checksum: H256(sym::bytes(k)) };
        let probe = name("any name");
        let mut want: Option<clients_info::ClientRelease<N, H256>> = None;
        let mut next = None;
        for i in 0..3 {
            let (org, root) = origin();
            let (n, r) = (name("name"), rel("release"));
            let x = if i == 0 { layer(|| Clients::set_current_client_release(org, n.clone(), r.clone())) } else { layer(|| Clients::set_pending_client_release(org, n.clone(), r.clone())) };
            sym::check(x.is_ok() == root, "only governance sets releases");
            if root && n == probe { if i == 0 { want = Some(r) } else { next = Some(r) } }
        }
        sym::check(clients_info::CurrentClientReleases::<Test>::get(&probe) == want, "the current release is the one last set");
        sym::check(clients_info::PendingClientReleases::<Test>::get(&probe) == next, "the pending release is the one last set, and does not take effect early");
        let _ = Clients::on_runtime_upgrade();
        if next.is_some() { want = next; sym::covered!("upgraded"); }
        sym::check(clients_info::CurrentClientReleases::<Test>::get(&probe) == want, "an upgrade makes every pending release current and leaves the others");
        sym::check(clients_info::PendingClientReleases::<Test>::iter().count() == 0, "nothing stays pending");
    }
}
