//! Harnesses for the vault side of the bridge: vault-registry, nomination, issue, redeem, replace.
#![allow(clippy::all)]
mod market;
mod rt;
use bitcoin::merkle::PartialTransactionProof;
use bitcoin::types::{FullTransactionProof, Transaction, TransactionOutput};
use bitcoin::{Address, PublicKey, Script};
use currency::Amount;
use frame_support::storage::with_storage_layer;
use frame_support::store;
use frame_system::RawOrigin;
use oracle::OracleKey;
use primitives::{CurrencyId, VaultCurrencyPair, VaultId};
pub use rt::*;
use sp_core::{H160, H256};
use sp_runtime::{DispatchError, DispatchResult, FixedU128};

type Vr = vault_registry::Pallet<Test>;
type Nom = nomination::Pallet<Test>;
type Iss = issue::Pallet<Test>;
type Red = redeem::Pallet<Test>;
type Rep = replace::Pallet<Test>;
type Tok = orml_tokens::Pallet<Test>;
type Sec = security::Pallet<Test>;
type Amt = Amount<Test>;

const USER: Acc = 1;
const V1: Acc = 2;
const V2: Acc = 3;
const NOMI: Acc = 4;
const OTHER: Acc = 5;
const ONE: u128 = 1_000_000_000_000_000_000;
const RATE: u128 = 5;
const PAIR: VaultCurrencyPair<CurrencyId> = VaultCurrencyPair { collateral: COLL, wrapped: WRAPPED };
fn fx(n: u128, d: u128) -> FixedU128 {
    FixedU128::from_inner(ONE / d * n)
}
fn vid(a: Acc) -> VaultId<Acc, CurrencyId> {
    VaultId::new(a, COLL, WRAPPED)
}
fn start_funds() -> [(Acc, CurrencyId, u128); 9] {
    let m = 1u128 << 60;
    [(USER, NATIVE, m), (V1, NATIVE, m), (V2, NATIVE, m), (OTHER, NATIVE, m), (USER, COLL, m), (V1, COLL, m), (V2, COLL, m), (NOMI, COLL, m), (NOMI, NATIVE, m)]
}
const C1: u128 = 1_000_000_007;
const C2: u128 = 500_000_003;
fn pay_address() -> Address {
    Address::P2WPKHv0(H160([7; 20]))
}
fn setup() {
    for (w, c, a) in start_funds() {
        Tok::put(&w, c, a, 0);
    }
    Tok::set_issuance(NATIVE, 5 << 60);
    Tok::set_issuance(COLL, 4 << 60);
    oracle::Aggregate::<Test>::insert(OracleKey::ExchangeRate(COLL), fx(RATE, 1));
    oracle::Aggregate::<Test>::insert(OracleKey::ExchangeRate(NATIVE), fx(3, 1));
    oracle::Aggregate::<Test>::insert(OracleKey::FeeEstimation, fx(2, 1));
    redeem::RedeemTransactionSize::<Test>::put(150);
    vault_registry::SystemCollateralCeiling::<Test>::insert(PAIR, 1u128 << 100);
    vault_registry::MinimumCollateralVault::<Test>::insert(COLL, 0);
    vault_registry::SecureCollateralThreshold::<Test>::insert(PAIR, fx(2, 1));
    vault_registry::PremiumRedeemThreshold::<Test>::insert(PAIR, fx(135, 100));
    vault_registry::LiquidationCollateralThreshold::<Test>::insert(PAIR, fx(110, 100));
    vault_registry::PunishmentDelay::<Test>::put(8);
    fee::IssueFee::<Test>::put(fx(5, 1000));
    fee::IssueGriefingCollateral::<Test>::put(fx(5, 1000));
    fee::RedeemFee::<Test>::put(fx(5, 1000));
    fee::PremiumRedeemFee::<Test>::put(fx(5, 100));
    fee::PunishmentFee::<Test>::put(fx(1, 10));
    fee::ReplaceGriefingCollateral::<Test>::put(fx(1, 10));
    nomination::NominationEnabled::<Test>::put(true);
    issue::IssuePeriod::<Test>::put(10);
    redeem::RedeemPeriod::<Test>::put(10);
    replace::ReplacePeriod::<Test>::put(10);
    issue::IssueBtcDustValue::<Test>::put(2);
    redeem::RedeemBtcDustValue::<Test>::put(2);
    replace::ReplaceBtcDustValue::<Test>::put(2);
    btc_relay::DisableInclusionCheck::<Test>::put(true);
    btc_relay::StartBlockHeight::<Test>::put(0);
    btc_relay::BestBlockHeight::<Test>::put(100);
    Sec::set_active_block_number(1);
    for (a, c) in [(V1, C1), (V2, C2)] {
        let mut k = [2u8; 33];
        k[1] = a as u8;
        vault_registry::VaultBitcoinPublicKey::<Test>::insert(a, PublicKey(k));
        let r = Vr::register_vault(RawOrigin::Signed(a), PAIR, c);
        sym::check(r.is_ok(), "setup: vault registered");
    }
}
fn free(c: CurrencyId, a: Acc) -> u128 {
    Tok::free_balance(c, &a)
}
fn reserved(c: CurrencyId, a: Acc) -> u128 {
    Tok::reserved_balance(c, &a)
}
fn vault(a: Acc) -> vault_registry::DefaultVault<Test> {
    match Vr::get_vault_from_id(&vid(a)) {
        Ok(v) => v,
        Err(_) => panic!("vault"),
    }
}
fn backing(a: Acc) -> u128 {
    Vr::get_backing_collateral(&vid(a)).map(|x| x.amount()).unwrap_or(u128::MAX)
}
fn total_backing() -> u128 {
    vault_registry::TotalUserVaultCollateral::<Test>::get(PAIR)
}
fn lv() -> vault_registry::types::DefaultSystemVault<Test> {
    Vr::get_liquidation_vault(&PAIR)
}
fn next_id(who: Acc) -> H256 {
    let s = store::snapshot();
    let r = Sec::get_secure_id(&who);
    store::restore(s);
    r
}
fn proof(outs: Vec<TransactionOutput>) -> FullTransactionProof {
    let part = |o: Vec<TransactionOutput>| PartialTransactionProof {
        transaction: Transaction { outputs: o, ..Default::default() },
        tx_encoded_len: 100,
        merkle_proof: Default::default(),
    };
    FullTransactionProof { user_tx_proof: part(outs), coinbase_proof: part(vec![]) }
}
fn pay(addr: Address, v: i64) -> TransactionOutput {
    TransactionOutput { value: v, script: addr.to_script_pub_key() }
}
fn redeem_proof(addr: Address, v: i64, id: H256) -> FullTransactionProof {
    let op = TransactionOutput::op_return(0, id.as_bytes());
    proof(vec![pay(addr, v), op])
}


/// groups of checks, selected by the high bits of parameter 0 (0 = all)
const G_SUPPLY: u64 = 1;
const G_COLL: u64 = 2;
const G_REQ: u64 = 4;
const G_SECURE: u64 = 8;
const G_ISSUE: u64 = 16;
const G_REDEEM: u64 = 32;
const G_REPLACE: u64 = 64;
const G_LIQ: u64 = 128;
const G_LIVE: u64 = 256;
const G_FEE: u64 = 512;
fn chk(group: u64, b: bool, name: &'static str) {
    let m = sym::param(0) >> 4;
    if m == 0 || m & group != 0 {
        sym::check(b, name);
    }
}
fn on(group: u64) -> bool {
    let m = sym::param(0) >> 4;
    m == 0 || m & group != 0
}
struct Led {
    issues: Vec<H256>,
    redeems: Vec<H256>,
    replaces: Vec<H256>,
}
fn feepool() -> Acc {
    fee::Pallet::<Test>::fee_pool_account_id()
}
fn treasury() -> Acc {
    Iss::treasury_account_id()
}
fn all_accounts() -> [Acc; 8] {
    [USER, V1, V2, NOMI, OTHER, Vr::liquidation_vault_account_id(), feepool(), treasury()]
}
fn held(c: CurrencyId) -> u128 {
    all_accounts().iter().map(|a| free(c, *a) + reserved(c, *a)).sum()
}
/// What has to hold in every reachable state.
fn invariants(l: &Led) {
    let (a, b, s) = (vault(V1), vault(V2), lv());
    // the wrapped token is backed one to one by tokens recorded on vaults
    if on(G_SUPPLY) {
        chk(G_SUPPLY, Tok::total_issuance(WRAPPED) == a.issued_tokens + b.issued_tokens + s.issued_tokens,
            "the wrapped supply equals the tokens recorded as issued by the vaults");
        chk(G_SUPPLY, held(WRAPPED) == Tok::total_issuance(WRAPPED), "the wrapped supply is what the accounts hold");
    }
    if on(G_COLL) {
        chk(G_COLL, total_backing() == backing(V1) + backing(V2) + a.liquidated_collateral + b.liquidated_collateral + s.collateral,
            "the recorded total collateral is the sum over the vaults");
        chk(G_COLL, reserved(COLL, Vr::liquidation_vault_account_id()) == s.collateral, "the liquidation vault's collateral is locked in its account");
        chk(G_COLL, held(COLL) == 4 << 60 && held(NATIVE) == 5 << 60, "collateral is neither created nor lost");
    }
    for (w, v) in [(V1, &a), (V2, &b)] {
        if on(G_COLL) {
            chk(G_COLL, reserved(COLL, w) >= backing(w) + v.liquidated_collateral, "a vault's recorded collateral is locked in its account");
            chk(G_COLL, reserved(NATIVE, w) == v.replace_collateral + v.active_replace_collateral, "a vault's griefing collateral is locked in its account");
        }
        if v.is_liquidated() {
            chk(G_SUPPLY, v.issued_tokens == 0 && v.to_be_issued_tokens == 0 && v.to_be_replaced_tokens == 0, "a liquidated vault has handed over its tokens");
        } else {
            chk(G_SUPPLY, v.to_be_redeemed_tokens + v.to_be_replaced_tokens <= v.issued_tokens, "a vault cannot promise more tokens than it has issued");
            chk(G_COLL, v.liquidated_collateral == 0, "only a liquidated vault has liquidated collateral");
        }
        chk(G_COLL, v.to_be_redeemed_tokens > 0 || v.liquidated_collateral == 0, "collateral is held back after liquidation only for tokens being redeemed");
    }
    chk(G_SUPPLY, s.to_be_redeemed_tokens <= s.issued_tokens + s.to_be_issued_tokens, "the liquidation vault cannot promise more tokens than it has");
    if !on(G_REQ) {
        return;
    }
    // the counters are the sums over the open requests
    let (mut tbi, mut tbr, mut grief, mut lock, mut act) = ([0u128; 2], [0u128; 2], 0u128, 0u128, [0u128; 2]);
    let ix = |w: Acc| if w == V1 { 0 } else { 1 };
    for id in l.issues.iter() {
        if let Some(r) = issue::IssueRequests::<Test>::get(id) {
            if r.status == issue::IssueRequestStatus::Pending {
                tbi[ix(r.vault.account_id)] += r.amount + r.fee;
                grief += r.griefing_collateral;
            }
        }
    }
    for id in l.redeems.iter() {
        if let Some(r) = redeem::RedeemRequests::<Test>::get(id) {
            if r.status == redeem::RedeemRequestStatus::Pending {
                tbr[ix(r.vault.account_id)] += r.amount_btc + r.transfer_fee_btc;
                lock += r.amount_btc + r.transfer_fee_btc + r.fee;
            }
        }
    }
    for id in l.replaces.iter() {
        if let Some(r) = replace::ReplaceRequests::<Test>::get(id) {
            if r.status == replace::ReplaceRequestStatus::Pending {
                tbr[ix(r.old_vault.account_id)] += r.amount;
                tbi[ix(r.new_vault.account_id)] += r.amount;
                act[ix(r.old_vault.account_id)] += r.griefing_collateral;
            }
        }
    }
    let mut li = 0;
    let mut lr = 0;
    for (i, v) in [(0, &a), (1, &b)] {
        if v.is_liquidated() {
            li += tbi[i];
            lr += tbr[i];
        } else {
            chk(G_REQ, v.to_be_issued_tokens == tbi[i], "tokens to be issued are the sum over the open requests");
        }
        chk(G_REQ, v.to_be_redeemed_tokens == tbr[i], "tokens to be redeemed are the sum over the open requests");
        chk(G_REQ, v.active_replace_collateral == act[i], "the active griefing collateral is the sum over the open replace requests");
    }
    chk(G_REQ, s.to_be_issued_tokens == li && s.to_be_redeemed_tokens == lr, "the liquidation vault has taken over the open requests");
    chk(G_REQ, reserved(NATIVE, USER) == grief, "the user's griefing collateral is locked");
    chk(G_REQ, reserved(WRAPPED, USER) == lock, "the tokens being redeemed are locked");
}
fn amount(n: &str) -> u128 {
    sym::uint(n, (sym::param(0) & 15) as usize)
}
/// amounts of operations whose code is above 100: selected by the hundreds digit
const FIXED: [u128; 10] = [0, 40_000_003, 7_777_777, 333_331, 29_496_729, 5_000_011, 1_234_567, 90_000_001, 20_000_000, 1];
/// exchange rates for operation 40
const PRICES: [u128; 10] = [60, 7, 8, 9, 10, 15, 20, 4, 3, 2];
fn dr<T, E: Into<DispatchError>>(r: Result<T, E>) -> DispatchResult {
    r.map(|_| ()).map_err(|e| e.into())
}
fn de(r: frame_support::dispatch::DispatchResultWithPostInfo) -> DispatchResult {
    r.map(|_| ()).map_err(|e| e.error)
}
fn expire() {
    Sec::set_active_block_number(Sec::active_block_number() + 50);
    btc_relay::BestBlockHeight::<Test>::mutate(|h| *h += 50);
}
fn price() -> u128 {
    oracle::Aggregate::<Test>::get(OracleKey::ExchangeRate(COLL)).unwrap().into_inner() / ONE
}
/// secure collateralisation with the tokens a vault backs, in percent
fn secure(w: Acc) -> bool {
    let v = vault(w);
    let t = match v.secure_collateral_threshold {
        Some(t) if t > fx(2, 1) => t.into_inner() / (ONE / 100),
        _ => 200,
    };
    (v.issued_tokens + v.to_be_issued_tokens) * price() * t <= backing(w) * 100
}
fn banned(w: Acc) -> bool {
    vault(w).banned_until.map_or(false, |u| Sec::active_block_number() <= u)
}
/// `part` is `num/den` of `x` up to `tol` units of rounding
fn share(part: u128, x: u128, num: u128, den: u128, tol: u128) -> bool {
    part * den <= x * num + tol * den && x * num <= part * den + tol * den
}
fn expired(open: u32, btc: u32, period: u32) -> bool {
    Sec::active_block_number() > open + period && btc_relay::BestBlockHeight::<Test>::get() > btc + (period + 99) / 100
}
/// balances an operation may move
struct Obs {
    supply: u128,
    uw: u128,
    uwr: u128,
    un: u128,
    unr: u128,
    uc: u128,
    fee: u128,
    tn: u128,
    w1: u128,
    c1: u128,
    n1: u128,
    n2: u128,
    b1: u128,
    b2: u128,
    v1: vault_registry::DefaultVault<Test>,
    v2: vault_registry::DefaultVault<Test>,
    lv: vault_registry::types::DefaultSystemVault<Test>,
    ban1: bool,
    sec1: bool,
}
fn obs() -> Obs {
    Obs {
        supply: Tok::total_issuance(WRAPPED),
        uw: free(WRAPPED, USER),
        uwr: reserved(WRAPPED, USER),
        un: free(NATIVE, USER),
        unr: reserved(NATIVE, USER),
        uc: free(COLL, USER),
        fee: free(WRAPPED, feepool()),
        tn: free(NATIVE, treasury()),
        w1: free(WRAPPED, V1),
        c1: free(COLL, V1),
        n1: free(NATIVE, V1),
        n2: free(NATIVE, V2),
        b1: backing(V1),
        b2: backing(V2),
        v1: vault(V1),
        v2: vault(V2),
        lv: lv(),
        ban1: banned(V1),
        sec1: on(G_SECURE | G_ISSUE) && secure(V1),
    }
}
/// tokens backed by V1 or, once it is liquidated, by the liquidation vault
fn issued1(o: &Obs) -> u128 {
    if o.v1.is_liquidated() { o.lv.issued_tokens } else { o.v1.issued_tokens }
}

sym::harnesses! {
    fn oracle_hist() { market::oracle_hist() }
    fn conversion() { market::conversion() }
    fn amount_math() { market::amount_math() }
    fn amount_funds() { market::amount_funds() }
    fn fee_rates() { market::fee_rates() }
    fn commission() { market::commission() }
    fn vault_hist() {
        setup();
        let n = sym::param(15) as usize;
        // a vault that takes nominations cannot be replaced
        if (0..n).all(|i| sym::param(1 + i) % 100 / 10 != 3) {
            let r = Nom::opt_in_to_nomination(RawOrigin::Signed(V1), PAIR);
            sym::check(r.is_ok(), "setup: opted in");
            let r = Nom::set_nomination_limit(RawOrigin::Signed(V1), PAIR, 1 << 80);
            sym::check(r.is_ok(), "setup: nomination limit");
        }
        let mut l = Led { issues: vec![], redeems: vec![], replaces: vec![] };
        let names = ["x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14"];
        let mut f = market::Fees::default();
        for i in 0..n {
            let code = sym::param(1 + i);
            let op = code % 100;
            let h = code as usize / 100;
            let x = match op {
                5 | 6 | 7 | 8 | 9 | 61 | 62 | 63 | 64 | 12 | 13 | 15 | 21 | 22 | 23 | 24 | 28 | 29 | 33 | 34 | 35 | 36 | 40 | 41 | 42 | 50 => 0,
                _ if code > 100 => FIXED[h],
                _ => amount(names[i]),
            };
            let id = next_id(match op { 30 | 31 | 32 => V1, _ => USER });
            // late operations
            match op {
                12 => Sec::set_active_block_number(Sec::active_block_number() + 4),
                13 | 22 | 23 | 34 | 50 => expire(),
                _ => (),
            }
            let o = obs();
            let iq = l.issues.last().and_then(|k| issue::IssueRequests::<Test>::get(k));
            let rq = l.redeems.last().and_then(|k| redeem::RedeemRequests::<Test>::get(k));
            let pk = if op == 35 { l.replaces.first() } else { l.replaces.last() };
            let pq = pk.and_then(|k| replace::ReplaceRequests::<Test>::get(k));
            let ik = l.issues.last().cloned();
            let rk = l.redeems.last().cloned();
            let pk = pk.cloned();
            let r: DispatchResult = with_storage_layer(|| match op {
                1 => de(Nom::deposit_collateral(RawOrigin::Signed(V1), vid(V1), x)),
                2 => de(Nom::withdraw_collateral(RawOrigin::Signed(V1), vid(V1), Some(x), Some(9))),
                3 => de(Nom::deposit_collateral(RawOrigin::Signed(NOMI), vid(V1), x)),
                4 => de(Nom::withdraw_collateral(RawOrigin::Signed(NOMI), vid(V1), Some(x), Some(9))),
                5 => de(Nom::opt_out_of_nomination(RawOrigin::Signed(V1), PAIR)),
                6 => de(Nom::withdraw_collateral(RawOrigin::Signed(NOMI), vid(V1), None, Some(0))),
                7 => de(Vr::set_custom_secure_threshold(RawOrigin::Signed(V1), PAIR, Some(fx(3, 1)))),
                8 | 9 => de(Vr::accept_new_issues(RawOrigin::Signed(V1), PAIR, op == 9)),
                10 => de(Iss::request_issue(RawOrigin::Signed(USER), x, vid(V1), NATIVE)),
                11 | 14 => de(Iss::execute_issue(
                    RawOrigin::Signed(if op == 14 { OTHER } else { USER }),
                    ik.unwrap(),
                    proof(vec![pay(iq.as_ref().unwrap().btc_address, x as i64)]),
                )),
                12 | 13 | 15 => de(Iss::cancel_issue(RawOrigin::Signed(if op == 12 { USER } else { OTHER }), ik.unwrap())),
                20 => de(Red::request_redeem(RawOrigin::Signed(USER), x, pay_address(), vid(V1))),
                21 | 27 | 28 | 29 => {
                    let q = rq.as_ref().unwrap();
                    let v = if op == 27 { x } else { q.amount_btc };
                    let to = if op == 29 { Address::P2WPKHv0(H160([9; 20])) } else { q.btc_address };
                    let m = if op == 28 { H256([5; 32]) } else { rk.unwrap() };
                    de(Red::execute_redeem(RawOrigin::Signed(V1), rk.unwrap(), redeem_proof(to, v as i64, m)))
                }
                22 | 23 => de(Red::cancel_redeem(RawOrigin::Signed(USER), rk.unwrap(), op == 22)),
                24 => de(Red::mint_tokens_for_reimbursed_redeem(RawOrigin::Signed(V1), PAIR, rk.unwrap())),
                25 => de(Red::self_redeem(RawOrigin::Signed(V1), PAIR, x)),
                26 => de(Red::liquidation_redeem(RawOrigin::Signed(USER), PAIR, x)),
                30 => de(Rep::request_replace(RawOrigin::Signed(V1), PAIR, x)),
                31 => de(Rep::withdraw_replace(RawOrigin::Signed(V1), PAIR, x)),
                32 => de(Rep::accept_replace(RawOrigin::Signed(V2), PAIR, vid(V1), x, 1000, pay_address())),
                33 | 35 | 36 => {
                    let q = pq.as_ref().unwrap();
                    let v = if op == 36 { q.amount - 1 } else { q.amount };
                    de(Rep::execute_replace(RawOrigin::Signed(OTHER), pk.unwrap(), redeem_proof(q.btc_address, v as i64, pk.unwrap())))
                }
                34 => de(Rep::cancel_replace(RawOrigin::Signed(V2), pk.unwrap())),
                40 => dr(oracle::Pallet::<Test>::_set_exchange_rate(COLL, fx(PRICES[h], 1))),
                41 => de(Vr::report_undercollateralized_vault(RawOrigin::Signed(OTHER), vid(V1))),
                42 => dr(Vr::liquidate_vault(&vid(V1))),
                // the minimum collateral of a vault is raised
                43 => { vault_registry::MinimumCollateralVault::<Test>::insert(COLL, x); Ok(()) }
                50 => Ok(()),
                60 => market::distribute(x),
                61 => market::withdraw(V1, V1),
                62 => market::withdraw(NOMI, V1),
                63 => market::withdraw(V2, V2),
                64 => de(fee::Pallet::<Test>::set_commission(RawOrigin::Signed(V1), PAIR, fx(1, 8))),
                _ => Err(DispatchError::BadOrigin),
            });
            #[cfg(feature="native")]
            if std::env::var("DBG").is_ok() { eprintln!("DBG {} {:?} b1 {} iss {} price {}", op, r, backing(V1), vault(V1).issued_tokens, price()); }
            let ok = r.is_ok();
            let p = obs();
            use issue::IssueRequestStatus as IS;
            use redeem::RedeemRequestStatus as RS;
            use replace::ReplaceRequestStatus as PS;
            if on(G_FEE) {
                f.step(op, x, ok);
            }
            match op {
                2 | 4 if ok => chk(G_SECURE, secure(V1), "withdrawing collateral may not leave a vault below its secure threshold"),
                10 if ok => {
                    chk(G_SECURE, secure(V1), "issuing may not leave a vault below its secure threshold");
                    chk(G_ISSUE, !o.v1.is_liquidated() && !o.ban1 && o.v1.accepts_new_issues(), "only a vault that is active and accepting may take an issue request");
                    let q = issue::IssueRequests::<Test>::get(id).unwrap();
                    chk(G_ISSUE, q.amount + q.fee == x && share(q.fee, x, 1, 200, 1), "an issue request is for the requested amount, of which the fee is a fixed share");
                    chk(G_ISSUE, share(q.griefing_collateral, x * 3, 1, 200, 2), "griefing collateral is a fixed share of the value issued");
                    chk(G_ISSUE, q.requester == USER && q.vault == vid(V1) && q.status == IS::Pending, "an issue request names the user and the vault");
                    chk(G_ISSUE, p.v1.to_be_issued_tokens == o.v1.to_be_issued_tokens + x, "requested tokens are reserved with the vault");
                    chk(G_ISSUE, o.un - p.un == q.griefing_collateral && p.unr - o.unr == q.griefing_collateral, "the griefing collateral is taken from the user");
                    l.issues.push(id);
                }
                11 | 14 => {
                    let q = iq.unwrap();
                    let t = q.amount + q.fee;
                    if ok {
                        let q2 = issue::IssueRequests::<Test>::get(ik.unwrap()).unwrap();
                        let m = q2.amount + q2.fee;
                        chk(G_ISSUE, q.status != IS::Completed && q2.status == IS::Completed, "an issue is executed only once");
                        chk(G_ISSUE, m <= x && p.supply == o.supply + m, "never more tokens are minted than bitcoin was paid");
                        chk(G_ISSUE, p.uw == o.uw + q2.amount && p.fee == o.fee + q2.fee, "the user and the fee pool receive the minted tokens");
                        chk(G_ISSUE, share(q2.fee, m, 1, 200, 1), "the issue fee is a fixed share of the minted tokens");
                        chk(G_ISSUE, issued1(&p) == issued1(&o) + m, "the vault is charged with the minted tokens");
                        chk(G_ISSUE, x >= t || op == 11, "only the requester may execute with a smaller payment");
                        if q.status == IS::Pending {
                            chk(G_ISSUE, if x <= t { m == x } else { m >= t }, "the user is issued what was paid for");
                            chk(G_SECURE, m <= t || secure(V1), "issuing an overpayment may not leave a vault below its secure threshold");
                            let back = p.un - o.un;
                            chk(G_ISSUE, back + (p.tn - o.tn) == q.griefing_collateral, "the griefing collateral is released or slashed");
                            chk(G_ISSUE, if x >= t { back == q.griefing_collateral } else { share(back, q.griefing_collateral, x, t, 1) }, "griefing collateral is slashed for the missing part only");
                        } else {
                            chk(G_SECURE, secure(V1), "reviving an issue may not leave a vault below its secure threshold");
                            chk(G_ISSUE, m == x, "the user is issued what was paid for");
                            chk(G_ISSUE, p.un == o.un && p.tn == o.tn, "the griefing collateral was settled on cancellation");
                        }
                    } else {
                        chk(G_LIVE, !(q.status == IS::Pending && x >= 1 && (x >= t || op == 11)), "a paid issue request can be executed");
                    }
                }
                12 | 13 | 15 => {
                    let q = iq.unwrap();
                    let late = expired(q.opentime, q.btc_height, q.period);
                    if ok {
                        let q2 = issue::IssueRequests::<Test>::get(ik.unwrap()).unwrap();
                        chk(G_ISSUE, q.status == IS::Pending && q2.status == IS::Cancelled, "only an open issue request is cancelled");
                        chk(G_ISSUE, late || op == 12, "only the requester may cancel an issue before it expires");
                        let back = p.un - o.un;
                        chk(G_ISSUE, back + (p.tn - o.tn) == q.griefing_collateral, "the griefing collateral is released or slashed");
                        if o.v1.is_liquidated() {
                            chk(G_ISSUE, back == q.griefing_collateral, "no griefing collateral is slashed if the vault was liquidated");
                        } else if late {
                            chk(G_ISSUE, back == 0, "the griefing collateral of an expired issue is slashed");
                        } else {
                            let el = (Sec::active_block_number() - q.opentime) as u128;
                            chk(G_ISSUE, el >= 10 || share(back, q.griefing_collateral, 10 - el, 10, 1), "griefing collateral is slashed in proportion to the time elapsed");
                        }
                        chk(G_ISSUE, p.supply == o.supply && p.uw == o.uw, "cancelling an issue mints nothing");
                    } else {
                        chk(G_LIVE, !(q.status == IS::Pending && (late || op == 12)), "an expired issue request can be cancelled");
                    }
                }
                20 if ok => {
                    let q = redeem::RedeemRequests::<Test>::get(id).unwrap();
                    let burn = q.amount_btc + q.transfer_fee_btc;
                    chk(G_REDEEM, !o.v1.is_liquidated() && !o.ban1, "only a vault that is active may take a redeem request");
                    chk(G_REDEEM, burn + q.fee == x && share(q.fee, x, 1, 200, 1) && q.transfer_fee_btc == 300, "a redeem request pays out the amount less the fees");
                    chk(G_REDEEM, q.redeemer == USER && q.vault == vid(V1) && q.status == RS::Pending && q.btc_address == pay_address(), "a redeem request names the user, the address and the vault");
                    chk(G_REDEEM, o.uw - p.uw == x && p.uwr - o.uwr == x && p.supply == o.supply, "the redeemed tokens are locked");
                    chk(G_REDEEM, p.v1.to_be_redeemed_tokens == o.v1.to_be_redeemed_tokens + burn && p.v1.to_be_redeemed_tokens <= p.v1.issued_tokens, "the tokens to be redeemed are reserved with the vault");
                    chk(G_REDEEM, q.premium * 20 <= q.amount_btc * price(), "the premium is at most its share of the value redeemed");
                    let tbb = o.v1.issued_tokens + o.v1.to_be_issued_tokens - o.v1.to_be_redeemed_tokens;
                    chk(G_REDEEM, tbb * price() * 2 > o.b1 || q.premium == 0, "no premium is paid by a vault above the secure threshold");
                    l.redeems.push(id);
                }
                21 | 27 | 28 | 29 => {
                    let q = rq.unwrap();
                    let burn = q.amount_btc + q.transfer_fee_btc;
                    if ok {
                        let q2 = redeem::RedeemRequests::<Test>::get(rk.unwrap()).unwrap();
                        chk(G_REDEEM, q.status == RS::Pending && q2.status == RS::Completed, "a redeem is executed only once");
                        chk(G_REDEEM, op == 21 || (op == 27 && x == q.amount_btc), "only the exact payment with the request's identifier executes a redeem");
                        chk(G_REDEEM, o.supply - p.supply == burn && p.fee - o.fee == q.fee, "the redeemed tokens are burned and the fee is paid");
                        chk(G_REDEEM, o.uwr - p.uwr == burn + q.fee && p.uw == o.uw, "the redeemed tokens come from the user's locked balance");
                        chk(G_REDEEM, issued1(&o) - issued1(&p) == burn, "the vault is relieved of the redeemed tokens");
                        if o.v1.is_liquidated() {
                            chk(G_REDEEM, p.uc == o.uc, "a liquidated vault pays no premium");
                            let back = p.c1 - o.c1;
                            chk(G_LIQ, back == o.v1.liquidated_collateral - p.v1.liquidated_collateral && share(back, o.v1.liquidated_collateral, burn, o.v1.to_be_redeemed_tokens, 1),
                                "a liquidated vault that delivers gets its share of the held back collateral");
                        } else {
                            chk(G_REDEEM, p.uc - o.uc == q.premium && o.b1 - p.b1 == q.premium, "the vault pays the agreed premium");
                        }
                    } else {
                        chk(G_LIVE, !(q.status == RS::Pending && op == 21 && q.premium == 0), "an honest vault can always execute an open redeem request");
                    }
                }
                22 | 23 => {
                    let q = rq.unwrap();
                    let burn = q.amount_btc + q.transfer_fee_btc;
                    let late = expired(q.opentime, q.btc_height, q.period);
                    if ok {
                        let q2 = redeem::RedeemRequests::<Test>::get(rk.unwrap()).unwrap();
                        chk(G_REDEEM, q.status == RS::Pending && late, "only an expired open redeem request is cancelled");
                        let got = p.uc - o.uc;
                        if op == 22 {
                            chk(G_REDEEM, matches!(q2.status, RS::Reimbursed(_)), "a reimbursed redeem is recorded as such");
                            chk(G_REDEEM, o.uwr - p.uwr == burn + q.fee && p.uw == o.uw && p.fee - o.fee == q.fee, "a reimbursed user gives up the tokens");
                            if o.v1.is_liquidated() {
                                chk(G_LIQ, share(got, o.v1.liquidated_collateral, burn, o.v1.to_be_redeemed_tokens, 1) && got == o.v1.liquidated_collateral - p.v1.liquidated_collateral, "the user receives the collateral held back for the redeem");
                                chk(G_REDEEM, o.supply - p.supply == burn && q2.status == RS::Reimbursed(true), "the tokens of a liquidated vault are burned");
                            } else {
                                chk(G_REDEEM, share(got, burn * price(), 11, 10, 2) || (got == o.b1 && got * 10 <= burn * price() * 11), "a reimbursed user receives the value of the tokens and the punishment fee");
                                chk(G_REDEEM, if q2.status == RS::Reimbursed(true) { p.supply == o.supply && p.w1 == o.w1 + burn } else { o.supply - p.supply == burn && p.w1 == o.w1 }, "the tokens of a reimbursed redeem go to the vault or are burned");
                                chk(G_SECURE, q2.status == RS::Reimbursed(false) || secure(V1), "a vault below its secure threshold does not receive the tokens");
                            }
                        } else {
                            chk(G_REDEEM, q2.status == RS::Retried && p.uw - o.uw == burn + q.fee && p.supply == o.supply && p.fee == o.fee, "a user who retries keeps all tokens");
                            if o.v1.is_liquidated() {
                                let moved = o.v1.liquidated_collateral - p.v1.liquidated_collateral;
                                chk(G_LIQ, share(moved, o.v1.liquidated_collateral, burn, o.v1.to_be_redeemed_tokens, 1) && p.lv.collateral - o.lv.collateral == moved && got == 0, "the collateral held back for a retried redeem goes to the liquidation vault");
                            } else {
                                chk(G_REDEEM, share(got, burn * price(), 1, 10, 2) || (got == o.b1 && got * 10 <= burn * price()), "a user who retries receives the punishment fee");
                            }
                        }
                        chk(G_REDEEM, o.v1.is_liquidated() || (banned(V1) && o.b1 - p.b1 == got), "a vault that fails to deliver is slashed and banned");
                    } else {
                        chk(G_LIVE, !(q.status == RS::Pending && late), "an expired redeem request can be cancelled");
                    }
                }
                24 if ok => {
                    let q = rq.unwrap();
                    let m = q.amount_btc + q.transfer_fee_btc;
                    let q2 = redeem::RedeemRequests::<Test>::get(rk.unwrap()).unwrap();
                    chk(G_REDEEM, q.status == RS::Reimbursed(false) && q2.status == RS::Reimbursed(true), "tokens of a reimbursed redeem are minted only once");
                    chk(G_REDEEM, p.supply - o.supply == m && p.w1 - o.w1 == m && p.v1.issued_tokens - o.v1.issued_tokens == m, "the vault receives the tokens of the reimbursed redeem");
                    chk(G_SECURE, secure(V1), "minting may not leave a vault below its secure threshold");
                }
                25 if ok => {
                    let burned = o.supply - p.supply;
                    let fee = p.fee - o.fee;
                    chk(G_REDEEM, burned + fee == x && o.w1 - p.w1 == x, "a vault's own redeem takes its tokens");
                    chk(G_REDEEM, o.v1.issued_tokens - p.v1.issued_tokens == burned, "the vault is relieved of the redeemed tokens");
                    chk(G_REDEEM, p.v1.to_be_redeemed_tokens <= p.v1.issued_tokens, "tokens being redeemed by others stay backed");
                }
                26 if ok => {
                    chk(G_LIQ, o.uw - p.uw == x && o.supply - p.supply == x && o.lv.issued_tokens - p.lv.issued_tokens == x, "a liquidation redeem burns the tokens");
                    let den = o.lv.issued_tokens + o.lv.to_be_issued_tokens - o.lv.to_be_redeemed_tokens;
                    let got = p.uc - o.uc;
                    chk(G_LIQ, got == o.lv.collateral - p.lv.collateral && share(got, o.lv.collateral, x, den, 1) && got * den <= o.lv.collateral * x, "a liquidation redeem pays the tokens' share of the collateral");
                    chk(G_LIQ, x <= o.lv.issued_tokens - o.lv.to_be_redeemed_tokens, "tokens being redeemed cannot be used twice");
                }
                30 if ok => {
                    let inc = p.v1.to_be_replaced_tokens - o.v1.to_be_replaced_tokens;
                    chk(G_REPLACE, inc >= 1 && inc <= x && p.v1.to_be_replaced_tokens + p.v1.to_be_redeemed_tokens <= p.v1.issued_tokens, "a vault may ask to have only its free tokens replaced");
                    let g = p.v1.replace_collateral - o.v1.replace_collateral;
                    chk(G_REPLACE, share(g, inc * 3, 1, 10, 2) && o.n1 - p.n1 == g, "a replace request locks its share of griefing collateral");
                    chk(G_REPLACE, !o.ban1, "a banned vault may not ask to be replaced");
                }
                31 if ok => {
                    let dec = o.v1.to_be_replaced_tokens - p.v1.to_be_replaced_tokens;
                    let g = o.v1.replace_collateral - p.v1.replace_collateral;
                    chk(G_REPLACE, dec == x || (dec < x && p.v1.to_be_replaced_tokens == 0), "a replace request is withdrawn up to its amount");
                    chk(G_REPLACE, share(g, o.v1.replace_collateral, dec, o.v1.to_be_replaced_tokens, 1) && p.n1 - o.n1 == g, "withdrawing a replace request releases its griefing collateral");
                }
                32 if ok => {
                    chk(G_SECURE, secure(V2), "taking over tokens may not leave a vault below its secure threshold");
                    let q = replace::ReplaceRequests::<Test>::get(id).unwrap();
                    chk(G_REPLACE, o.v1.to_be_replaced_tokens - p.v1.to_be_replaced_tokens == q.amount && q.amount <= x && (q.amount == x || p.v1.to_be_replaced_tokens == 0), "accepting takes over requested tokens");
                    chk(G_REPLACE, p.v1.to_be_redeemed_tokens - o.v1.to_be_redeemed_tokens == q.amount && p.v2.to_be_issued_tokens - o.v2.to_be_issued_tokens == q.amount, "both vaults reserve the tokens being replaced");
                    chk(G_REPLACE, p.b2 - o.b2 == q.collateral && q.collateral <= 1000, "the new vault locks the offered collateral");
                    chk(G_REPLACE, o.v1.replace_collateral - p.v1.replace_collateral == q.griefing_collateral && p.v1.active_replace_collateral - o.v1.active_replace_collateral == q.griefing_collateral
                        && share(q.griefing_collateral, o.v1.replace_collateral, q.amount, o.v1.to_be_replaced_tokens, 1), "the griefing collateral becomes active in proportion");
                    chk(G_REPLACE, q.old_vault == vid(V1) && q.new_vault == vid(V2) && q.status == PS::Pending && q.btc_address == pay_address(), "a replace request names both vaults");
                    l.replaces.push(id);
                }
                33 | 35 | 36 => {
                    let q = pq.unwrap();
                    if ok {
                        let q2 = replace::ReplaceRequests::<Test>::get(pk.unwrap()).unwrap();
                        chk(G_REPLACE, q.status != PS::Completed && q2.status == PS::Completed, "a replace is executed only once");
                        chk(G_REPLACE, op != 36, "only the exact payment executes a replace");
                        chk(G_REPLACE, issued1(&o) - issued1(&p) == q.amount && (p.v2.is_liquidated() || p.v2.issued_tokens - o.v2.issued_tokens == q.amount) && p.supply == o.supply, "the tokens move from the old to the new vault");
                        chk(G_REPLACE, p.n1 - o.n1 == (if q.status == PS::Pending { q.griefing_collateral } else { 0 }) + (o.v1.replace_collateral - p.v1.replace_collateral), "the old vault gets its griefing collateral back if it was not slashed");
                        chk(G_SECURE, q.status == PS::Pending || secure(V2), "reviving a replace may not leave a vault below its secure threshold");
                    } else {
                        chk(G_LIVE, !(q.status == PS::Pending && op != 36), "an honest vault can always execute an open replace request");
                    }
                }
                34 => {
                    let q = pq.unwrap();
                    let late = expired(q.accept_time, q.btc_height, q.period);
                    if ok {
                        let q2 = replace::ReplaceRequests::<Test>::get(pk.unwrap()).unwrap();
                        chk(G_REPLACE, q.status == PS::Pending && late && q2.status == PS::Cancelled, "only an expired open replace request is cancelled");
                        chk(G_REPLACE, p.n2 - o.n2 == q.griefing_collateral && o.v1.active_replace_collateral - p.v1.active_replace_collateral == q.griefing_collateral, "the new vault receives the griefing collateral");
                        chk(G_REPLACE, (o.b2 - p.b2 == q.collateral || p.b2 == o.b2) && p.supply == o.supply, "cancelling a replace moves at most the added collateral");
                    } else {
                        chk(G_LIVE, !(q.status == PS::Pending && late), "an expired replace request can be cancelled");
                    }
                }
                41 => {
                    let low = o.b1 * 10 < o.v1.issued_tokens * price() * 11;
                    if !o.v1.is_liquidated() {
                        // the conversion rounds down, which can be worth one more unit
                        let near = o.b1 * 10 < (o.v1.issued_tokens + 1) * price() * 11;
                        chk(G_LIQ, ok || !low, "every vault below the liquidation threshold can be liquidated");
                        chk(G_LIQ, !ok || near, "only a vault below the liquidation threshold can be liquidated");
                    } else {
                        chk(G_LIQ, !ok, "a vault is liquidated only once");
                    }
                }
                8 | 9 if ok => chk(G_ISSUE, p.v1.accepts_new_issues() == (op == 9), "a vault can stop taking issue requests"),
                _ => (),
            }
            if (op == 41 || op == 42) && ok {
                let taken = p.lv.collateral - o.lv.collateral;
                let kept = p.v1.liquidated_collateral;
                let tokens = o.v1.issued_tokens + o.v1.to_be_issued_tokens;
                chk(G_LIQ, p.v1.is_liquidated(), "a liquidated vault is marked as such");
                chk(G_LIQ, p.lv.issued_tokens - o.lv.issued_tokens == o.v1.issued_tokens
                    && p.lv.to_be_issued_tokens - o.lv.to_be_issued_tokens == o.v1.to_be_issued_tokens
                    && p.lv.to_be_redeemed_tokens - o.lv.to_be_redeemed_tokens == o.v1.to_be_redeemed_tokens, "liquidation moves all tokens to the liquidation vault");
                chk(G_LIQ, o.b1 - p.b1 == taken + kept, "liquidation takes the vault's collateral");
                chk(G_LIQ, taken + kept == o.b1 || share(taken + kept, tokens * price(), 11, 10, 2), "liquidation takes the collateral up to the liquidation threshold");
                chk(G_LIQ, tokens == 0 || share(kept, taken + kept, o.v1.to_be_redeemed_tokens, tokens, 1), "collateral is held back for the tokens being redeemed");
                chk(G_LIQ, p.v1.to_be_redeemed_tokens == o.v1.to_be_redeemed_tokens && p.supply == o.supply, "liquidation leaves open redeem requests and the supply alone");
            }
            if !ok {
                // a refused operation changes nothing, what follows is a shorter history
                sym::covered!("an operation was refused");
                if i + 1 < n {
                    sym::end();
                    return;
                }
            } else {
                sym::covered!("an operation succeeded");
            }
            invariants(&l);
        }
        if on(G_FEE) {
            f.settle();
        }
        sym::observe(Tok::total_issuance(WRAPPED) as u64, "supply");
        sym::observe(total_backing() as u64, "collateral");
        sym::covered!("end of history");
    }
}
