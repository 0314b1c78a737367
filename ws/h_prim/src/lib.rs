//! Harnesses for /repo/primitives.
#![allow(clippy::all)]
use codec::{Decode, Encode, MaxEncodedLen};
use primitives::{
    BalanceToFixedPoint, CurrencyId, CurrencyInfo, LpToken, SignedFixedPoint, TokenSymbol, TruncateFixedPointToInt,
    UnsignedFixedPoint, VaultCurrencyPair, VaultId,
};
use sp_runtime::FixedPointNumber;

// the published currency table
const TOKENS: [(TokenSymbol, u8, &str, u32); 6] = [
    (TokenSymbol::DOT, 0, "DOT", 10),
    (TokenSymbol::IBTC, 1, "IBTC", 8),
    (TokenSymbol::INTR, 2, "INTR", 10),
    (TokenSymbol::KSM, 10, "KSM", 12),
    (TokenSymbol::KBTC, 11, "KBTC", 8),
    (TokenSymbol::KINT, 12, "KINT", 12),
];
fn token(name: &str) -> (TokenSymbol, u8) {
    let t = TOKENS[sym::pick(name, 0, 5) as usize];
    (t.0, t.1)
}
fn lp(name: &str, kind: u64, out: &mut Vec<u8>) -> LpToken {
    out.push(kind as u8);
    match kind {
        0 => {
            let (t, c) = token(name);
            out.push(c);
            LpToken::Token(t)
        }
        1 => {
            let v = sym::u32(name);
            out.extend_from_slice(&v.to_le_bytes());
            LpToken::ForeignAsset(v)
        }
        _ => {
            let v = sym::u32(name);
            out.extend_from_slice(&v.to_le_bytes());
            LpToken::StableLpToken(v)
        }
    }
}
/// A currency of the given kind and its expected encoding. Kinds from 10: pairs.
fn currency(name: &str, kind: u64, out: &mut Vec<u8>) -> CurrencyId {
    match kind {
        0 => {
            out.push(0);
            let (t, c) = token(name);
            out.push(c);
            CurrencyId::Token(t)
        }
        1 | 2 | 4 => {
            out.push(kind as u8);
            let v = sym::u32(name);
            out.extend_from_slice(&v.to_le_bytes());
            match kind {
                1 => CurrencyId::ForeignAsset(v),
                2 => CurrencyId::LendToken(v),
                _ => CurrencyId::StableLpToken(v),
            }
        }
        _ => {
            out.push(3);
            let a = lp("lp0", (kind - 10) / 3, out);
            let b = lp("lp1", (kind - 10) % 3, out);
            CurrencyId::LpToken(a, b)
        }
    }
}
fn valid_token(c: u8) -> bool {
    matches!(c, 0 | 1 | 2 | 10 | 11 | 12)
}
/// Length of the LP token at the start of b, if it is one.
fn lp_len(b: &[u8]) -> Option<usize> {
    match b.first()? {
        0 => (valid_token(*b.get(1)?)).then(|| 2),
        1 | 2 => (b.len() >= 5).then(|| 5),
        _ => None,
    }
}
fn currency_len(b: &[u8]) -> Option<usize> {
    match b.first()? {
        0 => (valid_token(*b.get(1)?)).then(|| 2),
        1 | 2 | 4 => (b.len() >= 5).then(|| 5),
        3 => {
            let x = lp_len(&b[1..])?;
            let y = lp_len(&b[1 + x..])?;
            Some(1 + x + y)
        }
        _ => None,
    }
}

sym::harnesses! {
    fn currency_codec() {
        let mut w = vec![];
        let c = currency("c", sym::param(0), &mut w);
        let e = c.encode();
        sym::check(e == w, "encoding");
        sym::check(e.len() <= CurrencyId::max_encoded_len(), "bounded");
        sym::check(matches!(CurrencyId::decode(&mut &e[..]), Ok(x) if x == c), "round trip");
        let mut w2 = vec![];
        let kind = sym::param(0);
        let d = currency("d", if kind >= 10 { 1 } else { kind }, &mut w2);
        sym::check((c == d) == (w == w2), "two currencies are equal exactly when their encodings are");
        sym::check(c.is_lend_token() == (kind == 2), "lend tokens");
        sym::check(c.is_lp_token() == (kind == 0 || kind == 1 || kind == 4), "pair members");
    }
    fn currency_any() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        let mut r = &b[..];
        match CurrencyId::decode(&mut r) {
            Ok(c) => {
                sym::reach("accepted");
                let used = n - r.len();
                sym::check(currency_len(&b) == Some(used), "accepted exactly when well-formed");
                sym::check(c.encode()[..] == b[..used], "re-encodes to the same bytes");
            }
            Err(_) => sym::check(currency_len(&b).is_none(), "well-formed currencies are accepted"),
        }
    }
    fn token_numbers() {
        let v = sym::u8("v");
        match TokenSymbol::try_from(v) {
            Ok(t) => {
                sym::reach("known");
                let i: u8 = t.into();
                sym::check(valid_token(v) && i == v, "number round trip");
                sym::check(t.encode() == [v], "encoded as its number");
                let mut n = 0;
                for (x, c, s, d) in TOKENS {
                    if c == v {
                        n += 1;
                        sym::check(x == t && t.symbol() == s, "symbol");
                        sym::check(CurrencyInfo::decimals(&t) as u32 == d, "decimals");
                        let mut one = 1u128;
                        for _ in 0..d { one *= 10; }
                        sym::check(t.one() == one, "one unit is ten to the decimals");
                        sym::check(TokenSymbol::get_info().contains(&(s, d)), "listed");
                    }
                }
                sym::check(n == 1, "one currency per number");
            }
            Err(_) => { sym::reach("unknown"); sym::check(!valid_token(v), "known numbers are accepted"); }
        }
        sym::expect("known"); sym::expect("unknown");
        sym::check(TokenSymbol::get_info().len() == 6, "six currencies");
    }
    fn token_names() {
        let n = sym::param(0) as usize;
        let b = sym::byte_vec("b", n);
        match TokenSymbol::try_from(b.clone()) {
            Ok(t) => { sym::reach("known"); sym::check(t.symbol().as_bytes() == &b[..], "name of the currency"); }
            Err(_) => {
                for (_, _, s, _) in TOKENS { sym::check(s.as_bytes() != &b[..], "names are accepted"); }
            }
        }
        if n == 3 || n == 4 { sym::expect("known"); }
    }
    // parameters: kinds of the two currencies
    fn lp_join() {
        let (k, l) = (sym::param(0), sym::param(1));
        let (mut w, mut v) = (vec![], vec![]);
        let a = currency("a", k, &mut w);
        let b = currency("b", l, &mut v);
        let ok = |k: u64| k == 0 || k == 1 || k == 4;
        match CurrencyId::join_lp_token(a, b) {
            Some(CurrencyId::LpToken(x, y)) => {
                sym::check(ok(k) && ok(l), "joined only from pair members");
                let (p, q): (CurrencyId, CurrencyId) = (x.into(), y.into());
                sym::check(p == a && q == b, "the pair names its members, in order");
            }
            Some(_) => sym::check(false, "joining yields a pair"),
            None => sym::check(!(ok(k) && ok(l)), "pair members can be joined"),
        }
    }
    fn lp_sort() {
        let (k, l) = (sym::param(0), sym::param(1));
        let (mut w, mut v) = (vec![], vec![]);
        let a = lp("a", k, &mut w);
        let b = lp("b", l, &mut v);
        let (mut x, mut y) = (CurrencyId::LpToken(a, b), CurrencyId::LpToken(b, a));
        x.sort();
        y.sort();
        sym::check(x == y, "the order of the members does not matter");
        sym::check(x == CurrencyId::LpToken(a, b) || x == CurrencyId::LpToken(b, a), "the members stay");
        if let CurrencyId::LpToken(p, q) = x { sym::check(p <= q, "sorted"); }
        let mut z = x;
        z.sort();
        sym::check(z == x, "sorting again changes nothing");
        // order: kind first, then number
        let num = |t: &LpToken| match t { LpToken::Token(t) => (0u8, { let i: u8 = (*t).into(); i as u32 }), LpToken::ForeignAsset(i) => (1, *i), LpToken::StableLpToken(i) => (2, *i) };
        sym::check((a < b) == (num(&a) < num(&b)), "ordered by kind, then number");
    }
    fn sort_others() {
        let mut w = vec![];
        let c = currency("c", sym::param(0), &mut w);
        let mut d = c;
        d.sort();
        sym::check(c == d, "other currencies are left alone");
    }
    fn to_fixed() {
        const DIV: u128 = 1_000_000_000_000_000_000;
        let x = sym::u128("x");
        match BalanceToFixedPoint::<SignedFixedPoint>::to_fixed(x) {
            Some(f) => {
                sym::reach("fits");
                sym::check(x <= i128::MAX as u128 / DIV, "fits");
                let i = f.into_inner();
                sym::check(i >= 0 && i as u128 == x * DIV, "the number, with 18 decimals");
                sym::check(f.truncate_to_inner() == Some(x as i128), "round trip");
            }
            None => { sym::reach("too big"); sym::check(x > i128::MAX as u128 / DIV, "representable amounts convert"); }
        }
        sym::expect("fits"); sym::expect("too big");
    }
    fn truncate() {
        const DIV: i128 = 1_000_000_000_000_000_000;
        let i = sym::i128("i");
        match SignedFixedPoint::from_inner(i).truncate_to_inner() {
            Some(t) => {
                // towards zero
                let back = t * DIV;
                sym::check(if i >= 0 { back <= i && i - back < DIV } else { back >= i && back - i < DIV }, "the integer part, rounded towards zero");
            }
            None => sym::check(false, "truncation is total"),
        }
        let u = sym::u128("u");
        match UnsignedFixedPoint::from_inner(u).truncate_to_inner() {
            Some(t) => sym::check(t * DIV as u128 <= u && u - t * (DIV as u128) < DIV as u128, "the integer part"),
            None => sym::check(false, "truncation is total"),
        }
    }
    fn vault_ids() {
        let (mut w, mut v) = (vec![], vec![]);
        let (c, d) = (currency("c", sym::param(0), &mut w), currency("d", sym::param(1), &mut v));
        let acc = sym::u64("acc");
        let a = VaultId::new(acc, c, d);
        sym::check(a.account_id == acc && a.collateral_currency() == c && a.wrapped_currency() == d, "parts");
        let p = VaultCurrencyPair { collateral: c, wrapped: d };
        sym::check(a.currencies == p, "currency pair");
        sym::check(VaultId::from_pair(acc, p.clone()) == a && VaultId::from((acc, p)) == a, "constructors agree");
        let e = a.encode();
        let mut x = acc.to_le_bytes().to_vec();
        x.extend_from_slice(&w);
        x.extend_from_slice(&v);
        sym::check(e == x, "encoding");
        sym::check(matches!(VaultId::<u64, CurrencyId>::decode(&mut &e[..]), Ok(b) if b == a), "round trip");
    }
}
