//! Stand-in for num-bigint: naturals kept as a product of two 128-bit numbers, which is what
//! the lending rewards need; division is the exact integer quotient. Products that do not fit
//! are outside the bounds of the checks.
#![no_std]
use core::ops::{Add, Div, Mul, Sub};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, ToPrimitive, Zero};

#[derive(Clone, Copy, Debug)]
pub struct BigUint {
    l: u128,
    r: u128,
    /// a quotient that no longer fits 128 bits
    over: bool,
}
pub trait ToBigUint {
    fn to_biguint(&self) -> Option<BigUint>;
}
fn outside() {
    sym::assume(false);
}
impl BigUint {
    const fn of(l: u128) -> Self {
        BigUint { l, r: 1, over: false }
    }
    fn small(&self) -> Option<u128> {
        if self.over {
            return None;
        }
        if self.r == 1 {
            return Some(self.l);
        }
        self.l.checked_mul(self.r)
    }
    fn need(&self) -> u128 {
        match self.small() {
            Some(x) => x,
            None => {
                outside();
                0
            }
        }
    }
    fn times(&self, x: u128) -> Self {
        if self.r == 1 {
            return BigUint { l: self.l, r: x, over: self.over };
        }
        if let Some(l) = self.l.checked_mul(x) {
            return BigUint { l, r: self.r, over: self.over };
        }
        match self.r.checked_mul(x) {
            Some(r) => BigUint { l: self.l, r, over: self.over },
            None => {
                outside();
                *self
            }
        }
    }
}
macro_rules! from {
    ($($t:ty)*) => {$(
        impl From<$t> for BigUint { fn from(x: $t) -> Self { BigUint::of(x as u128) } }
        impl ToBigUint for $t { fn to_biguint(&self) -> Option<BigUint> { Some(BigUint::of(*self as u128)) } }
    )*};
}
from!(u8 u16 u32 u64 u128 usize);
impl<'a> Mul<&'a BigUint> for &'a BigUint {
    type Output = BigUint;
    fn mul(self, o: &BigUint) -> BigUint {
        if o.over {
            outside();
        }
        let x = self.times(o.l);
        if o.r == 1 {
            x
        } else {
            x.times(o.r)
        }
    }
}
impl<'a> Div<&'a BigUint> for &'a BigUint {
    type Output = BigUint;
    fn div(self, o: &BigUint) -> BigUint {
        let d = o.need();
        if d == 0 {
            panic!("attempt to divide by zero");
        }
        if self.over {
            outside();
        }
        match sym::muldiv(self.l, self.r, d, 0) {
            Some(x) => BigUint::of(x),
            None => BigUint { l: 0, r: 1, over: true },
        }
    }
}
impl<'a> Add<&'a BigUint> for &'a BigUint {
    type Output = BigUint;
    fn add(self, o: &BigUint) -> BigUint {
        match self.need().checked_add(o.need()) {
            Some(x) => BigUint::of(x),
            None => {
                outside();
                *self
            }
        }
    }
}
impl<'a> Sub<&'a BigUint> for &'a BigUint {
    type Output = BigUint;
    fn sub(self, o: &BigUint) -> BigUint {
        BigUint::of(self.need() - o.need())
    }
}
macro_rules! owned {
    ($($tr:ident $f:ident)*) => {$(
        impl $tr for BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { (&self).$f(&o) } }
        impl<'a> $tr<&'a BigUint> for BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { (&self).$f(o) } }
    )*};
}
owned!(Mul mul Div div Add add Sub sub);
impl CheckedMul for BigUint {
    fn checked_mul(&self, o: &Self) -> Option<Self> {
        Some(self * o)
    }
}
impl CheckedDiv for BigUint {
    fn checked_div(&self, o: &Self) -> Option<Self> {
        if o.is_zero() {
            return None;
        }
        Some(self / o)
    }
}
impl CheckedAdd for BigUint {
    fn checked_add(&self, o: &Self) -> Option<Self> {
        Some(self + o)
    }
}
impl CheckedSub for BigUint {
    fn checked_sub(&self, o: &Self) -> Option<Self> {
        self.need().checked_sub(o.need()).map(BigUint::of)
    }
}
impl Zero for BigUint {
    fn zero() -> Self {
        BigUint::of(0)
    }
    fn is_zero(&self) -> bool {
        !self.over && (self.l == 0 || self.r == 0)
    }
}
impl One for BigUint {
    fn one() -> Self {
        BigUint::of(1)
    }
}
impl PartialEq for BigUint {
    fn eq(&self, o: &Self) -> bool {
        self.need() == o.need()
    }
}
impl Eq for BigUint {}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        self.need().cmp(&o.need())
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.small().and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        self.small().and_then(|x| u64::try_from(x).ok())
    }
    fn to_u128(&self) -> Option<u128> {
        self.small()
    }
    fn to_i128(&self) -> Option<i128> {
        self.small().and_then(|x| i128::try_from(x).ok())
    }
}
