//! Harnesses for btc-relay and security.
#![allow(clippy::all)]
use bitcoin::merkle::{MerkleProof, PartialTransactionProof};
use bitcoin::types::*;
use bitcoin::{Address, Script};
use btc_relay::MAIN_CHAIN_ID;
use frame_support::parameter_types;
use frame_support::storage::with_storage_layer;
use frame_support::store;
use frame_system::RawOrigin;
use sp_core::{H160, H256, U256};
use sp_runtime::traits::{BlakeTwo256, IdentityLookup};
use sp_runtime::{DispatchError, DispatchResult};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Test;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev;
impl From<security::Event<Test>> for Ev {
    fn from(_: security::Event<Test>) -> Ev {
        Ev
    }
}
impl From<btc_relay::Event<Test>> for Ev {
    fn from(_: btc_relay::Event<Test>) -> Ev {
        Ev
    }
}
type Acc = u64;
impl frame_system::Config for Test {
    type RuntimeOrigin = RawOrigin<Acc>;
    type RuntimeCall = ();
    type Nonce = u32;
    type BlockNumber = u32;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = Acc;
    type Lookup = IdentityLookup<Acc>;
    type RuntimeEvent = Ev;
    type DbWeight = ();
}
impl security::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
parameter_types! {
    pub const BlocksPer: u32 = 50;
}
impl btc_relay::Config for Test {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type ParachainBlocksPerBitcoinBlock = BlocksPer;
}
type R = btc_relay::Pallet<Test>;
type Sec = security::Pallet<Test>;

const START: u32 = 2016 * 3;
fn h(i: u8) -> H256Le {
    let mut b = [0u8; 32];
    b[0] = i;
    b[3] = 1;
    H256Le::from_bytes_le(&b)
}
fn header(hash: H256Le, prev: H256Le) -> BlockHeader {
    BlockHeader { merkle_root: hash, target: U256::MAX, timestamp: 0, version: 4, hash, hash_prev_block: prev, nonce: 0 }
}
fn layer<X>(f: impl FnOnce() -> Result<X, DispatchError>) -> Result<X, DispatchError> {
    with_storage_layer(f)
}
fn start(k: u32) {
    btc_relay::StableBitcoinConfirmations::<Test>::put(k);
    btc_relay::DisableDifficultyCheck::<Test>::put(true);
    Sec::set_active_block_number(100);
    let r = layer(|| R::_initialize(1, header(h(1), h(0)), START));
    sym::check(r.is_ok(), "setup: initialised");
}
/// The tree of all blocks submitted; block i has hash h(i + 1), the last one is not submitted.
struct Tree {
    parent: Vec<usize>,
    height: Vec<u32>,
    best: usize,
    k: u32,
}
impl Tree {
    fn on_main(&self, b: usize) -> bool {
        let mut x = self.best;
        loop {
            if x == b {
                return true;
            }
            if x == 0 {
                return false;
            }
            x = self.parent[x];
        }
    }
    fn add(&mut self, p: usize) {
        let b = self.parent.len();
        self.parent.push(p);
        self.height.push(self.height[p] + 1);
        if p == self.best || self.height[b] >= self.height[self.best] + self.k {
            self.best = b;
        }
    }
    fn rival(&self) -> Option<u32> {
        (0..self.parent.len()).filter(|b| !self.on_main(*b)).map(|b| self.height[b]).max()
    }
}
fn chain(id: u32) -> BlockChain {
    match btc_relay::ChainsIndex::<Test>::get(id) {
        Some(c) => c,
        None => {
            sym::check(false, "every listed chain exists");
            BlockChain::default()
        }
    }
}
fn agrees(t: &Tree) {
    let best = h(t.best as u8 + 1);
    sym::check(R::get_best_block() == best && R::get_best_block_height() == t.height[t.best], "the best block is the tip of the longest branch, once it is ahead by the confirmations");
    let n = btc_relay::ChainCounter::<Test>::get();
    sym::check(btc_relay::Chains::<Test>::get(0) == Some(MAIN_CHAIN_ID), "the main chain comes first");
    sym::check(btc_relay::Chains::<Test>::iter().count() == n as usize, "every chain is listed once");
    let mut prev = u32::MAX;
    let mut seen = vec![];
    for i in 0..n {
        let id = match btc_relay::Chains::<Test>::get(i) {
            Some(id) => id,
            None => {
                sym::check(false, "the list of chains has no gaps");
                return;
            }
        };
        sym::check(id < n && !seen.contains(&id), "every chain is listed once");
        seen.push(id);
        let c = chain(id);
        sym::check(c.chain_id == id && c.start_height <= c.max_height, "a chain has at least one block");
        if i > 0 {
            sym::check(c.max_height <= prev, "the forks are listed by height");
            prev = c.max_height;
        }
        let mut link: Option<H256Le> = None;
        for x in c.start_height..=c.max_height {
            let hash = btc_relay::ChainsHashes::<Test>::get(id, x);
            sym::check(btc_relay::ChainsHashes::<Test>::contains_key(id, x) && btc_relay::BlockHeaders::<Test>::contains_key(hash), "a chain has a block at every height");
            let b = btc_relay::BlockHeaders::<Test>::get(hash);
            sym::check(b.chain_id == id && b.block_height == x, "a block is recorded with its chain and height");
            if let Some(l) = link {
                sym::check(b.block_header.hash_prev_block == l, "consecutive blocks of a chain are linked");
            }
            link = Some(hash);
        }
    }
    sym::check(btc_relay::ChainsHashes::<Test>::iter().count() == t.parent.len(), "every block is in one chain");
    for b in 0..t.parent.len() {
        let s = btc_relay::BlockHeaders::<Test>::get(h(b as u8 + 1));
        sym::check(s.block_height == t.height[b], "a block is one higher than its parent");
        sym::check((s.chain_id == MAIN_CHAIN_ID) == t.on_main(b), "exactly the ancestors of the best block are on the main chain");
    }
}
fn store(hash: H256Le, prev: H256Le) -> DispatchResult {
    layer(|| R::_store_block_header(&1, header(hash, prev)))
}
/// Any tree: every block names any block as its parent.
fn grow(n: usize, k: u32, fixed: &[u64]) -> Option<Tree> {
    let mut t = Tree { parent: vec![0], height: vec![START], best: 0, k };
    for i in 1..=n {
        let p = if i <= fixed.len() { fixed[i - 1] as u8 } else { sym::u8("parent") };
        let before = store::snapshot();
        Sec::set_active_block_number(100 + 10 * i as u32);
        let after = store::snapshot();
        let hash = h(i as u8 + 1);
        let mut pb = [0u8; 32];
        pb[0] = p.wrapping_add(1);
        pb[3] = 1;
        let r = store(hash, H256Le::from_bytes_le(&pb));
        if r.is_err() {
            sym::check(p as usize >= i, "a block whose parent is known is accepted");
            sym::check(store::same(&after, &store::snapshot()), "a refused block changes nothing");
            sym::covered!("refused");
            let _ = before;
            return None;
        }
        sym::check((p as usize) < i, "only a block whose parent is known is accepted");
        t.add(sym::concretize(p as u64) as usize);
        agrees(&t);
    }
    Some(t)
}
fn fixed() -> Vec<u64> {
    // parameters 2.. : parents of the first blocks, plus one
    (2..14).map(sym::param).take_while(|x| *x > 0).map(|x| x - 1).collect()
}
sym::harnesses! {
    fn relay_tree() {
        let n = sym::param(0) as usize;
        let k = sym::param(1) as u32;
        start(k);
        if grow(n, k, &fixed()).is_some() {
            sym::covered!("grown");
        }
        sym::expect("grown");
    }
    /// a header can be stored only once
    fn relay_duplicate() {
        let n = sym::param(0) as usize;
        let k = sym::param(1) as u32;
        start(k);
        if let Some(_) = grow(n, k, &fixed()) {
            let mut b = [0u8; 32];
            b[0] = sym::u8("again");
            b[3] = 1;
            let q = sym::pick("parent", 0, n as u64) as u8;
            let s = store::snapshot();
            let r = store(H256Le::from_bytes_le(&b), h(q + 1));
            let known = b[0] >= 1 && b[0] as usize <= n + 1;
            sym::check(r.is_ok() != known, "exactly the blocks not stored yet are accepted");
            sym::check(r.is_ok() || store::same(&s, &store::snapshot()), "a refused block changes nothing");
            if known { sym::covered!("known"); } else { sym::covered!("new"); }
            let r = layer(|| R::_initialize(1, header(h(77), h(0)), START));
            sym::check(r.is_err(), "the relay is initialised only once");
        }
        sym::expect("known");
        sym::expect("new");
    }
    /// which blocks are confirmed
    fn relay_confirmed() {
        let n = sym::param(0) as usize;
        let k = sym::param(1) as u32;
        start(k);
        if let Some(t) = grow(n, k, &fixed()) {
            let b = sym::u8("block");
            let mut hb = [0u8; 32];
            hb[0] = b.wrapping_add(1);
            hb[3] = 1;
            let conf = if sym::boolean("explicit") { Some(sym::u32("confirmations")) } else { None };
            let age = sym::u32("age");
            let now = sym::u32("now");
            sym::assume(age < 1 << 31);
            btc_relay::StableParachainConfirmations::<Test>::put(age);
            Sec::set_active_block_number(now);
            let best = t.height[t.best] as u64;
            let calm = t.rival().map_or(true, |r| best >= (r + k) as u64);
            match R::verify_block_header_inclusion(H256Le::from_bytes_le(&hb), conf) {
                Ok(x) => {
                    sym::covered!("confirmed");
                    sym::check((b as usize) <= n, "only stored blocks are confirmed");
                    let i = sym::concretize(b as u64) as usize;
                    sym::check(x.hash == h(i as u8 + 1) && x.merkle_root == h(i as u8 + 1), "the header returned is the block's");
                    sym::check(calm, "nothing is confirmed while another branch is close to the best block");
                    sym::check(t.on_main(i), "only blocks on the main chain are confirmed");
                    sym::check(best - t.height[i] as u64 + 1 >= conf.unwrap_or(k) as u64, "a confirmed block has the required confirmations");
                    sym::check(100 + 10 * i as u64 + age as u64 <= now as u64, "a confirmed block was stored long enough ago");
                }
                Err(_) => {
                    if b as usize <= n {
                        sym::covered!("unconfirmed");
                        let i = sym::concretize(b as u64) as usize;
                        let fine = calm && t.on_main(i) && best - t.height[i] as u64 + 1 >= conf.unwrap_or(k) as u64 && 100 + 10 * i as u64 + age as u64 <= now as u64;
                        sym::check(!fine, "a block with all confirmations is confirmed");
                    }
                }
            }
            let r = R::is_fully_initialized();
            sym::check(matches!(r, Ok(x) if x == (best >= (START + k) as u64)), "the relay is initialised once the first block is confirmed");
        }
        sym::expect("confirmed");
        sym::expect("unconfirmed");
    }
    /// the extrinsic: hash, proof of work, version, fork bound
    fn relay_header() {
        start(1);
        btc_relay::DisableDifficultyCheck::<Test>::put(sym::param(0) == 1);
        // targets of the form x << 64 * p, where x has 8 bytes; parameter 2: the header claims another target
        let sh = 64 * sym::param(1) as usize;
        let parent_target = U256::from(sym::u64("parent_target")) << sh;
        // the block to build on, with any target
        let mut x = header(h(1), h(0));
        x.target = parent_target;
        btc_relay::BlockHeaders::<Test>::insert(h(1), btc_relay::RichBlockHeader::new(x, 0, START, 100));
        let b = BlockHeader {
            merkle_root: H256Le::from_bytes_le(&sym::bytes::<32>("root")),
            target: if sym::param(2) == 0 { parent_target } else { U256::from(sym::u64("target")) << sh },
            timestamp: sym::u32("time"),
            version: sym::i32("version"),
            hash: H256Le::from_bytes_le(&sym::bytes::<32>("claimed")),
            hash_prev_block: h(1),
            nonce: sym::u32("nonce"),
        };
        let bound = sym::u32("bound");
        let s = store::snapshot();
        let r = layer(|| R::store_block_header(RawOrigin::Signed(1), b, bound).map_err(|e| e.error));
        let hash = match b.hash() {
            Ok(x) => x,
            Err(_) => { sym::check(r.is_err(), "a header without a hash is refused"); return; }
        };
        let work = hash.as_u256() < b.target;
        let target = sym::param(0) == 1 || b.target == parent_target;
        if r.is_ok() {
            sym::covered!("stored");
            sym::check(b.version >= 4, "old versions are refused");
            sym::check(bound >= 2, "the fork bound is respected");
            sym::check(work, "a stored block meets its target");
            sym::check(target, "a stored block has the target of its parent");
            sym::check(R::get_best_block() == hash && R::get_best_block_height() == START + 1, "the block is stored under its own hash");
            let x = btc_relay::BlockHeaders::<Test>::get(hash);
            sym::check(x.block_header.merkle_root == b.merkle_root && x.block_header.timestamp == b.timestamp && x.block_header.hash == hash && x.block_header.hash_prev_block == h(1)
                && x.block_header.nonce == b.nonce && x.block_header.version == b.version && x.block_header.target == b.target, "the block is stored as submitted");
            sym::check(x.chain_id == 0 && x.block_height == START + 1 && x.para_height == 100, "the block is stored with height, chain and time");
        } else {
            sym::covered!("refused");
            sym::check(!(b.version >= 4 && bound >= 2 && work && target) || hash == h(1), "a valid block is stored");
            sym::check(store::same(&s, &store::snapshot()), "a refused block changes nothing");
        }
        sym::expect("stored");
        sym::expect("refused");
    }

    /// the difficulty changes at every 2016th block, on any branch
    fn relay_retarget() {
        start(1);
        btc_relay::DisableDifficultyCheck::<Test>::put(false);
        let fork = sym::param(0);
        let shape = sym::param(1);
        let tip = START + 2015;
        let old = U256::from(0x00ffffu64) << 200;
        // a day less to a day more than two weeks
        let first = 1_000_000u32;
        let last = 1_000_000 + 1_209_600 - 86_400 + (sym::param(2) as u32) * 43_200;
        let put = |hash: H256Le, prev: H256Le, chain: u32, height: u32, time: u32| {
            let mut x = header(hash, prev);
            x.target = old;
            x.timestamp = time;
            btc_relay::BlockHeaders::<Test>::insert(hash, btc_relay::RichBlockHeader::new(x, chain, height, 100));
            btc_relay::ChainsHashes::<Test>::insert(chain, height, hash);
        };
        // the main chain of one period: only its first block and the last few are needed
        put(h(1), h(0), 0, START, first);
        for (i, x) in (tip - 3..=tip).enumerate() {
            put(h(2 + i as u8), h(if i == 0 { 1 } else { 1 + i as u8 }), 0, x, last);
        }
        let t = sym::u32("time");
        btc_relay::ChainsIndex::<Test>::insert(0, BlockChain { chain_id: 0, start_height: START, max_height: tip });
        btc_relay::BestBlock::<Test>::put(h(5));
        btc_relay::BestBlockHeight::<Test>::put(tip);
        let mut prev = h(5);
        if fork > 0 {
            // a branch of the given length below the end of the period, off the main chain or off another branch
            let mut from = tip - fork as u32;
            prev = h(2 + (from - (tip - 3)) as u8);
            let mut id = 1;
            let mut next = 20u8;
            for step in 0..fork {
                if step == 0 || (shape == 1 && step == 1) {
                    if step == 1 {
                        // another block on top of the same branch makes the next one a new branch
                        put(h(90), prev, 1, from + 1, last);
                        btc_relay::ChainsIndex::<Test>::mutate(1, |c| if let Some(c) = c { c.max_height = from + 1 });
                        id = 2;
                    }
                    btc_relay::ChainsIndex::<Test>::insert(id, BlockChain { chain_id: id, start_height: from + 1, max_height: from + 1 });
                    btc_relay::Chains::<Test>::insert(id, id);
                    btc_relay::ChainCounter::<Test>::put(id + 1);
                }
                from += 1;
                put(h(next), prev, id, from, last);
                btc_relay::ChainsIndex::<Test>::mutate(id, |c| if let Some(c) = c { c.max_height = from });
                prev = h(next);
                next += 1;
            }
        }
        let expect = match bitcoin::pow::calculate_next_work_required(old, first as u64, last as u64) {
            Ok(x) => <U256 as bitcoin::SetCompact>::set_compact(x),
            Err(_) => None,
        };
        let mut x = header(h(200), prev);
        x.timestamp = t;
        x.target = if sym::boolean("other") { U256::from(sym::u64("target")) << 192 } else { expect.unwrap_or(old) };
        let right = Some(x.target) == expect;
        let s = store::snapshot();
        let r = layer(|| R::_store_block_header(&1, x));
        sym::check(r.is_ok() || store::same(&s, &store::snapshot()), "a refused block changes nothing");
        sym::check(r.is_ok() || !right || x.hash.as_u256() >= x.target, "a block with the adjusted target is stored, on any branch");
        sym::check(r.is_err() || right, "only a block with the adjusted target is stored");
        if r.is_ok() { sym::covered!("stored"); } else { sym::covered!("refused"); }
        sym::expect("stored");
        sym::expect("refused");
    }
    /// when requests expire
    fn relay_expiry() {
        let (open, btc, period) = (sym::u32("open"), sym::u32("btc"), sym::u32("period"));
        let (now, best) = (sym::u32("now"), sym::u32("best"));
        Sec::set_active_block_number(now);
        btc_relay::BestBlockHeight::<Test>::put(best);
        let per = 50u64;
        let blocks = (period as u64 + per - 1) / per;
        let late = now as u64 > open as u64 + period as u64 && best as u64 > btc as u64 + blocks;
        match R::has_request_expired(open, btc, period) {
            Ok(x) => {
                if x { sym::covered!("expired"); } else { sym::covered!("open"); }
                sym::check(x == late, "a request has expired once its period has passed on both chains");
            }
            Err(_) => {
                sym::covered!("error");
                sym::check(open as u64 + period as u64 > u32::MAX as u64 || btc as u64 + blocks > u32::MAX as u64 || period as u64 + per > u32::MAX as u64, "only an overflow is an error");
            }
        }
        match R::bitcoin_expiry_height(btc, period) {
            Ok(x) => sym::check(x as u64 == btc as u64 + blocks, "the expiry height covers the whole period"),
            Err(_) => (),
        }
        sym::expect("expired");
        sym::expect("open");
        sym::expect("error");
    }
    /// identifiers of requests never repeat; active blocks
    fn secure_ids() {
        let n = U256(sym::limbs("nonce"));
        security::Nonce::<Test>::put(n);
        let mut ids: Vec<H256> = vec![];
        for i in 0..sym::param(0) {
            // the parent hash may change in between, and so may the account
            if sym::param(1) >> i & 1 == 1 {
                frame_system::Pallet::<Test>::set_parent_hash(H256(sym::bytes::<32>("parent")));
            }
            let x = Sec::get_secure_id(&sym::u64("account"));
            for y in &ids {
                sym::check(*y != x, "two requests never get the same identifier");
            }
            ids.push(x);
        }
        sym::covered!("ids");
        sym::expect("ids");
    }
    fn active_blocks() {
        use frame_support::traits::Hooks;
        let mut want = sym::u32("start");
        Sec::set_active_block_number(want);
        let mut active = sym::boolean("active");
        security::IsDeactivated::<Test>::put(!active);
        for _ in 0..sym::param(0) {
            match sym::pick("op", 0, 2) {
                0 => {
                    let on = sym::boolean("on");
                    let r = layer(|| Sec::activate_counter(RawOrigin::Root, on));
                    sym::check(r.is_ok(), "governance switches the counter");
                    active = on;
                }
                1 => {
                    let r = layer(|| Sec::activate_counter(RawOrigin::Signed(sym::u64("who")), sym::boolean("on")));
                    sym::check(r.is_err(), "only governance switches the counter");
                }
                _ => {
                    let w = <Sec as Hooks<u32>>::on_initialize(sym::u32("n"));
                    let _ = w;
                    if active { want = want.saturating_add(1); }
                }
            }
            sym::check(Sec::active_block_number() == want, "the counter counts exactly the active blocks");
        }
        let (o, p) = (sym::u32("open"), sym::u32("period"));
        match Sec::parachain_block_expired(o, p) {
            Ok(x) => sym::check(x == (want as u64 > o as u64 + p as u64), "expired after the period has passed in active blocks"),
            Err(_) => sym::check(o as u64 + p as u64 > u32::MAX as u64, "only an overflow is an error"),
        }
        sym::covered!("done");
        sym::expect("done");
    }
    /// what a redeem payment has to look like
    fn op_return_payment() {
        btc_relay::DisableInclusionCheck::<Test>::put(true);
        let to = recipient(sym::param(0));
        let id = sym::bytes::<32>("id");
        let amount = sym::i64("amount");
        let mut outs = vec![];
        let (mut ors, mut bad, mut pays): (Vec<Option<[u8; 32]>>, bool, Vec<(usize, Vec<u8>, i64)>) = (vec![], false, vec![]);
        let n = (1..6).take_while(|i| sym::param(*i) > 0).count();
        for i in 1..=n {
            let v = sym::i64("value");
            let (script, what) = output(sym::param(i));
            match what {
                Out::Pay(k, hash) => pays.push((k, hash, v)),
                Out::Data(d) => { ors.push(d); bad |= v != 0; }
                Out::Other => bad = true,
            }
            outs.push(TransactionOutput { value: v, script: Script::from(script) });
        }
        let same = |a: &(usize, Vec<u8>, i64), b: &(usize, Vec<u8>)| a.0 == b.0 && a.1 == b.1;
        let to_spec = (to.1, to.2.clone());
        let mut ok = n <= 3 && !bad && ors.len() == 1 && ors[0] == Some(id) && (pays.len() == 1 || pays.len() == 2);
        if ok && pays.len() == 2 {
            ok = !(pays[0].0 == pays[1].0 && pays[0].1 == pays[1].1);
        }
        if ok {
            ok = pays.iter().any(|p| same(p, &to_spec) && p.2 == amount);
        }
        let t = Transaction { outputs: outs, ..Default::default() };
        let r = R::verify_and_validate_op_return_transaction(full(t), to.0, amount, H256(id));
        if r.is_ok() { sym::covered!("accepted"); } else { sym::covered!("refused"); }
        sym::check(r.is_ok() == ok, "exactly a payment of the amount to the recipient with the identifier, and at most one other output, is accepted");
    }
    /// what an issue payment is worth
    fn issue_payment() {
        btc_relay::DisableInclusionCheck::<Test>::put(true);
        let to = recipient(sym::param(0));
        let mut outs = vec![];
        let mut first: Option<i64> = None;
        let n = (1..6).take_while(|i| sym::param(*i) > 0).count();
        for i in 1..=n {
            let v = sym::i64("value");
            let (script, what) = output(sym::param(i));
            if let Out::Pay(k, hash) = what {
                if first.is_none() && k == to.1 && hash == to.2 {
                    first = Some(v);
                }
            }
            outs.push(TransactionOutput { value: v, script: Script::from(script) });
        }
        let t = Transaction { outputs: outs, ..Default::default() };
        match R::get_and_verify_issue_payment::<u128>(full(t), to.0) {
            Ok(v) => {
                sym::covered!("paid");
                sym::check(first.map_or(false, |f| f >= 0 && v == f as u128), "the payment is the value of the output to the recipient");
            }
            Err(_) => {
                sym::covered!("nothing");
                sym::check(first.map_or(true, |f| f < 0), "a payment to the recipient is recognised");
            }
        }
    }
    /// inclusion: user and coinbase proof, against the stored header
    fn inclusion() {
        let k = 2u32;
        start(k);
        let len = sym::param(0) as u8;
        for i in 1..=len {
            sym::check(store(h(i + 1), h(i)).is_ok(), "setup: stored");
        }
        // the merkle roots of the stored blocks are arbitrary
        let roots: Vec<[u8; 32]> = (0..=len).map(|i| {
            let root = sym::bytes::<32>("root");
            btc_relay::BlockHeaders::<Test>::mutate(h(i + 1), |x| x.block_header.merkle_root = H256Le::from_bytes_le(&root));
            root
        }).collect();
        let part = |c: bool, nh: u64, nf: u64, m: u32| {
            let src = if c { TransactionInputSource::Coinbase(Some(sym::u8("height") as u32 + 17)) } else { TransactionInputSource::FromOutput(H256Le::from_bytes_le(&[3; 32]), 1) };
            let transaction = Transaction {
                version: 2, lock_at: LockTime::BlockHeight(0),
                inputs: vec![TransactionInput { source: src, script: if c { vec![1, 2, 3] } else { vec![] }, sequence: 7, witness: vec![] }],
                outputs: vec![TransactionOutput { value: sym::i64("amount"), script: Script::from(vec![1, 2]) }],
            };
            let mut b = [0u8; 32];
            b[0] = sym::u8("block");
            b[3] = 1;
            let mut bh = header(H256Le::from_bytes_le(&b), h(0));
            bh.merkle_root = H256Le::from_bytes_le(&sym::bytes::<32>("claimed"));
            let tx_encoded_len = transaction.size_no_witness() as u32;
            PartialTransactionProof {
                transaction, tx_encoded_len,
                merkle_proof: MerkleProof {
                    block_header: bh,
                    transactions_count: m,
                    flag_bits: (0..nf).map(|_| sym::boolean("flag")).collect(),
                    hashes: (0..nh).map(|_| H256Le::from_bytes_le(&sym::bytes::<32>("hash"))).collect(),
                },
            }
        };
        // user: parameters 1-3 hashes, flags, count; coinbase: 4-6; parameter 7: is it a coinbase
        let user = part(false, sym::param(1), sym::param(2), sym::param(3) as u32);
        let cb = part(sym::param(7) == 1, sym::param(4), sym::param(5), sym::param(6) as u32);
        let want = user.transaction.clone();
        let (u, c) = (user.clone().verify_proof(), cb.clone().verify_proof());
        let r = R::_verify_transaction_inclusion(FullTransactionProof { user_tx_proof: user.clone(), coinbase_proof: cb.clone() }, None);
        let mut ok = false;
        if let (Ok(u), Ok(c)) = (&u, &c) {
            let b = user.merkle_proof.block_header.hash.to_bytes_le()[0];
            let known = b >= 1 && b <= len + 1 - (k as u8 - 1);
            if known {
                let b = sym::concretize(b as u64) as usize;
                ok = c.transaction_position == 0 && u.extracted_root == c.extracted_root && user.merkle_proof.block_header.hash == cb.merkle_proof.block_header.hash
                    && user.merkle_proof.transactions_count == cb.merkle_proof.transactions_count && sym::param(7) == 1
                    && u.extracted_root.to_bytes_le() == roots[b - 1];
            }
        }
        match r {
            Ok(t) => {
                sym::covered!("included");
                sym::check(ok, "a transaction is included only with both proofs for the same confirmed block");
                sym::check(t == want, "the transaction returned is the proven one");
            }
            Err(_) => {
                sym::covered!("refused");
                sym::check(!ok, "a proven transaction is accepted");
            }
        }
    }
}
enum Out {
    Pay(usize, Vec<u8>),
    Data(Option<[u8; 32]>),
    Other,
}
fn full(t: Transaction) -> FullTransactionProof {
    let p = |transaction| PartialTransactionProof { transaction, tx_encoded_len: 0, merkle_proof: Default::default() };
    FullTransactionProof { user_tx_proof: p(t), coinbase_proof: p(Transaction::default()) }
}
fn recipient(k: u64) -> (Address, usize, Vec<u8>) {
    let b = sym::byte_vec("recipient", if k == 4 { 32 } else { 20 });
    let mut x = [0u8; 20];
    if k < 4 {
        x.copy_from_slice(&b);
    }
    let a = match k {
        1 => Address::P2PKH(H160(x)),
        2 => Address::P2SH(H160(x)),
        3 => Address::P2WPKHv0(H160(x)),
        _ => Address::P2WSHv0(H256::from_slice(&b)),
    };
    (a, k as usize, b)
}
fn output(k: u64) -> (Vec<u8>, Out) {
    let b = sym::byte_vec("script", match k { 4 | 5 => 32, 6 => 31, 7 => 33, _ => 20 });
    let with = |pre: &[u8], post: &[u8]| { let mut v = pre.to_vec(); v.extend_from_slice(&b); v.extend_from_slice(post); v };
    match k {
        1 => (with(&[0x76, 0xa9, 0x14], &[0x88, 0xac]), Out::Pay(1, b)),
        2 => (with(&[0xa9, 0x14], &[0x87]), Out::Pay(2, b)),
        3 => (with(&[0, 0x14], &[]), Out::Pay(3, b)),
        4 => (with(&[0, 0x20], &[]), Out::Pay(4, b)),
        5 => { let mut x = [0u8; 32]; x.copy_from_slice(&b); (with(&[0x6a, 0x20], &[]), Out::Data(Some(x))) }
        6 => (with(&[0x6a, 31], &[]), Out::Data(None)),
        7 => (with(&[0x6a, 33], &[]), Out::Data(None)),
        8 => (with(&[0x51, 0x14], &[]), Out::Other),
        _ => (vec![], Out::Other),
    }
}
