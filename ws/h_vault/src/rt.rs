//! A runtime with the vault side of the bridge.
use frame_support::parameter_types;
use frame_support::traits::ConstU32;
use frame_support::PalletId;
use primitives::{CurrencyId, TokenSymbol, VaultId};
use sp_runtime::traits::{BlakeTwo256, Convert, IdentityLookup};
use sp_runtime::{DispatchError, FixedI128, FixedU128};
use traits::OracleApi;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev;
macro_rules! ev {
    ($($t:ty),* $(,)?) => { $(impl From<$t> for Ev { fn from(_: $t) -> Ev { Ev } })* };
}
ev!(
    reward::Event<Test, CapPool>,
    reward::Event<Test, VaultPool>,
    staking::Event<Test>,
    security::Event<Test>,
    oracle::Event<Test>,
    vault_registry::Event<Test>,
    nomination::Event<Test>,
    btc_relay::Event<Test>,
    issue::Event<Test>,
    redeem::Event<Test>,
    replace::Event<Test>,
);
pub struct CapPool;
pub struct VaultPool;
pub type Acc = u64;
impl frame_system::Config for Test {
    type RuntimeOrigin = frame_system::RawOrigin<Acc>;
    type RuntimeCall = ();
    type Nonce = u32;
    type BlockNumber = u32;
    type Hash = sp_core::H256;
    type Hashing = BlakeTwo256;
    type AccountId = Acc;
    type Lookup = IdentityLookup<Acc>;
    type RuntimeEvent = Ev;
    type DbWeight = ();
}
pub const WRAPPED: CurrencyId = CurrencyId::Token(TokenSymbol::KBTC);
pub const NATIVE: CurrencyId = CurrencyId::Token(TokenSymbol::KINT);
pub const COLL: CurrencyId = CurrencyId::Token(TokenSymbol::KSM);
parameter_types! {
    pub const NativeId: CurrencyId = NATIVE;
    pub const CollId: CurrencyId = COLL;
    pub const WrappedId: CurrencyId = WRAPPED;
    pub const VaultPalletId: PalletId = PalletId(*b"vreg/mod");
    pub const FeePalletId: PalletId = PalletId(*b"fees/mod");
    pub const TreasuryPalletId: PalletId = PalletId(*b"trsy/mod");
    pub const MaxExpectedValue: FixedU128 = FixedU128::from_inner(1_000_000_000_000_000_000);
    pub const BlocksPer: u32 = 100;
}
impl orml_tokens::Config for Test {
    type Balance = u128;
    type CurrencyId = CurrencyId;
    type CurrencyHooks = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
}
impl reward::Config<CapPool> for Test {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = CurrencyId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<3>;
}
impl reward::Config<VaultPool> for Test {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = VaultId<Acc, CurrencyId>;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<3>;
}
impl staking::Config for Test {
    type RuntimeEvent = Ev;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type GetNativeCurrencyId = NativeId;
    type CurrencyId = CurrencyId;
}
pub struct Conv;
impl currency::CurrencyConversion<currency::Amount<Test>, CurrencyId> for Conv {
    fn convert(a: &currency::Amount<Test>, to: CurrencyId) -> Result<currency::Amount<Test>, DispatchError> {
        <oracle::Pallet<Test> as OracleApi<_, _>>::convert(a, to)
    }
}
impl currency::Config for Test {
    type UnsignedFixedPoint = FixedU128;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type Balance = u128;
    type GetNativeCurrencyId = NativeId;
    type GetRelayChainCurrencyId = CollId;
    type GetWrappedCurrencyId = WrappedId;
    type CurrencyConversion = Conv;
}
impl security::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
impl oracle::Config for Test {
    type RuntimeEvent = Ev;
    type OnExchangeRateChange = Hook;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl fee::Config for Test {
    type FeePalletId = FeePalletId;
    type WeightInfo = ();
    type SignedFixedPoint = FixedI128;
    type SignedInner = i128;
    type CapacityRewards = reward::Pallet<Test, CapPool>;
    type VaultRewards = reward::Pallet<Test, VaultPool>;
    type VaultStaking = staking::Pallet<Test>;
    type OnSweep = currency::SweepFunds<Test, Sweep>;
    type MaxExpectedValue = MaxExpectedValue;
    type NominationApi = nomination::Pallet<Test>;
}
parameter_types! {
    pub const Sweep: Acc = 99;
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test {}
impl vault_registry::Config for Test {
    type PalletId = VaultPalletId;
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type GetGriefingCollateralCurrencyId = NativeId;
}
impl nomination::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
impl btc_relay::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type ParachainBlocksPerBitcoinBlock = BlocksPer;
}
pub struct BlocksToBalance;
impl Convert<u32, u128> for BlocksToBalance {
    fn convert(a: u32) -> u128 {
        a.into()
    }
}
impl issue::Config for Test {
    type TreasuryPalletId = TreasuryPalletId;
    type RuntimeEvent = Ev;
    type BlockNumberToBalance = BlocksToBalance;
    type WeightInfo = ();
}
impl redeem::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
impl replace::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}

/// Counts the announcements of new prices and passes them on as the runtime does.
pub struct Hook;
impl traits::OnExchangeRateChange<CurrencyId> for Hook {
    fn on_exchange_rate_change(c: &CurrencyId) {
        Told::put(Told::get() + 1);
        <vault_registry::PoolManager<Test> as traits::OnExchangeRateChange<CurrencyId>>::on_exchange_rate_change(c)
    }
}
pub struct ToldPrefix;
impl frame_support::storage::types::StorageInstance for ToldPrefix {
    const ID: u64 = 0xfee2;
    fn instance() -> u64 {
        0
    }
}
pub type Told = frame_support::storage::types::StorageValue<ToldPrefix, u32, frame_support::storage::types::ValueQuery>;
