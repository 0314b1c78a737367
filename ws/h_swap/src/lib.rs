//! Harnesses for /repo/contracts.
#![allow(clippy::all)]
use bitcoin::merkle::{MerkleProof, PartialTransactionProof};
use bitcoin::types::{BlockHeader, FullTransactionProof, H256Le, TransactionBuilder, TransactionInputBuilder, TransactionInputSource, TransactionOutput};
use bitcoin::Address as BtcAddress;
use btc_swap::btc_swap::BtcSwap;
use hello_world::flipper::Flipper;
use primitive_types::{H160, H256};
use scale::Encode;

const ACCOUNTS: [[u8; 32]; 4] = [[1; 32], [2; 32], [3; 32], [4; 32]];

fn address(kind: u64, name: &str) -> BtcAddress {
    match kind {
        0 => BtcAddress::P2PKH(H160(sym::bytes(name))),
        1 => BtcAddress::P2SH(H160(sym::bytes(name))),
        2 => BtcAddress::P2WPKHv0(H160(sym::bytes(name))),
        _ => BtcAddress::P2WSHv0(H256(sym::bytes(name))),
    }
}
fn proof() -> FullTransactionProof {
    let mk = |n: &str| {
        let mut b = TransactionBuilder::new();
        let mut i = TransactionInputBuilder::new();
        i.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&sym::bytes::<32>(n)), 1));
        b.add_input(i.build());
        b.add_output(TransactionOutput::payment(5, &BtcAddress::P2PKH(H160([9; 20]))));
        PartialTransactionProof {
            transaction: b.build(),
            tx_encoded_len: 100,
            merkle_proof: MerkleProof { block_header: BlockHeader::default(), flag_bits: vec![true], transactions_count: 1, hashes: vec![H256Le::from_bytes_le(&sym::bytes::<32>("leaf"))] },
        }
    };
    FullTransactionProof { user_tx_proof: mk("user"), coinbase_proof: mk("coinbase") }
}
/// Offers the value to the contract and creates a trade. Traps revert, so a trapping path ends here.
fn create(c: &mut BtcSwap, who: usize, addr: BtcAddress, min: u64, value: u128) {
    let w = ink::world();
    w.caller = ACCOUNTS[who];
    w.value = value;
    match w.balance.checked_add(value) {
        Some(b) => w.balance = b,
        None => sym::assume(false),
    }
    c.create_trade(addr, min);
    ink::world().value = 0;
}
fn runtime_says(status: u32, sats: Option<u64>) {
    let w = ink::world();
    w.status = status;
    w.reply = sats.encode();
    w.calls.clear();
}

sym::harnesses! {
    // parameters: kinds of the two addresses
    // one trade: paid exactly when the runtime vouches for the payment to the recorded address
    fn swap_pays() {
        let mut c = BtcSwap::new();
        let addr = address(sym::param(0), "addr");
        let other = address(sym::param(1), "other");
        let (min, value) = (sym::u64("min"), sym::u128("value"));
        let (min2, value2) = (sym::u64("min2"), sym::u128("value2"));
        sym::assume(min > 0 && min2 > 0);
        create(&mut c, 0, addr, min, value);
        create(&mut c, 1, other, min2, value2);
        let before = ink::world().balance;
        let f = proof();
        let status = sym::u32("status");
        let sats = if sym::boolean("some") { Some(sym::u64("sats")) } else { None };
        runtime_says(status, sats);
        ink::world().caller = ACCOUNTS[2];
        let good = status == 0 && sats.map_or(false, |s| s >= min);
        // a good payment must not trap; anything else must
        sym::allow_panic(!good);
        c.execute_trade(ACCOUNTS[0], f.clone());
        sym::allow_panic(false);
        sym::reach("paid");
        sym::check(good, "paid only for a verified payment of at least the price");
        let w = ink::world();
        sym::check(w.calls.len() == 1 && w.calls[0].0 == 1101, "the runtime verifies the payment");
        let mut args = f.encode();
        args.extend_from_slice(&addr.encode().encode());
        sym::check(w.calls.len() == 1 && w.calls[0].1 == args, "the payment to the recorded address is what is verified");
        sym::check(w.transfers.len() == 1 && w.transfers[0] == (ACCOUNTS[2], value), "the caller gets exactly the locked amount");
        sym::check(w.balance == before - value, "nothing else leaves the contract");
        sym::expect("paid");
    }
    fn swap_refuses() {
        let mut c = BtcSwap::new();
        let addr = address(sym::param(0), "addr");
        let min = sym::u64("min");
        sym::allow_panic(min == 0);
        create(&mut c, 0, addr, min, sym::u128("value"));
        sym::check(min > 0, "a trade needs a price");
        sym::reach("created");
        sym::expect("created");
        // no trade of that account
        runtime_says(0, Some(u64::MAX));
        ink::world().caller = ACCOUNTS[2];
        sym::allow_panic(true);
        c.execute_trade(ACCOUNTS[1], proof());
        sym::check(false, "only existing trades can be executed");
    }
    // parameters: operations. 1/2/3 account creates a trade, 11/12/13 its trade is executed
    fn swap_once() {
        let mut c = BtcSwap::new();
        let n = sym::param(15) as usize;
        let mut open: [Option<u128>; 4] = [None; 4];
        let names = ["v1", "v2", "v3", "v4", "v5", "v6"];
        for i in 0..n {
            let op = sym::param(i);
            let who = (op % 10) as usize;
            if op < 10 {
                let v = sym::u128(names[i]);
                sym::assume(v < 1 << 100);
                create(&mut c, who, BtcAddress::P2PKH(H160([who as u8; 20])), 7, v);
                open[who] = Some(v);
            } else {
                runtime_says(0, Some(7));
                ink::world().caller = ACCOUNTS[0];
                let sent = ink::world().transfers.len();
                // executing a trade that is not open traps
                sym::allow_panic(open[who].is_none());
                c.execute_trade(ACCOUNTS[who], proof());
                sym::allow_panic(false);
                sym::check(open[who].is_some(), "a trade is paid out at most once");
                let w = ink::world();
                sym::check(w.transfers.len() == sent + 1 && Some(w.transfers[sent].1) == open[who], "the locked amount is paid");
                open[who] = None;
            }
            let locked: u128 = open.iter().map(|x| x.unwrap_or(0)).sum();
            sym::check(ink::world().balance >= locked, "the contract holds what open trades have locked");
        }
        sym::reach("end");
    }
    fn flipper() {
        let v = sym::boolean("v");
        let mut f = Flipper::new(v);
        sym::check(f.get() == v, "initial value");
        let n = sym::param(0);
        let mut want = v;
        for _ in 0..n {
            if sym::boolean("flip") {
                f.flip();
                want = !want;
            }
            sym::check(f.get() == want, "flipped once per call");
        }
        sym::check(!Flipper::new_default().get(), "default");
        sym::covered!("end");
    }
}
