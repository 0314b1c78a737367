use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Weight {
    ref_time: u64,
    proof_size: u64,
}
impl Weight {
    pub const fn max(self, o: Self) -> Self {
        Self {
            ref_time: if self.ref_time > o.ref_time { self.ref_time } else { o.ref_time },
            proof_size: if self.proof_size > o.proof_size { self.proof_size } else { o.proof_size },
        }
    }
    pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
    pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
        Weight { ref_time, proof_size }
    }
    pub const fn zero() -> Self {
        Weight { ref_time: 0, proof_size: 0 }
    }
    pub const fn ref_time(&self) -> u64 {
        self.ref_time
    }
    pub const fn proof_size(&self) -> u64 {
        self.proof_size
    }
    pub const fn saturating_add(self, o: Self) -> Self {
        Weight { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
    }
    pub const fn saturating_sub(self, o: Self) -> Self {
        Weight { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
    }
    pub const fn saturating_mul(self, o: u64) -> Self {
        Weight { ref_time: self.ref_time.saturating_mul(o), proof_size: self.proof_size.saturating_mul(o) }
    }
    pub fn saturating_accrue(&mut self, o: Self) {
        *self = self.saturating_add(o);
    }
    pub const fn set_proof_size(self, p: u64) -> Self {
        Weight { ref_time: self.ref_time, proof_size: p }
    }
    pub const fn set_ref_time(self, p: u64) -> Self {
        Weight { ref_time: p, proof_size: self.proof_size }
    }
}
impl core::ops::Add for Weight {
    type Output = Weight;
    fn add(self, o: Weight) -> Weight {
        Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
    }
}
impl core::ops::AddAssign for Weight {
    fn add_assign(&mut self, o: Weight) {
        *self = *self + o;
    }
}
impl core::ops::Mul<u64> for Weight {
    type Output = Weight;
    fn mul(self, o: u64) -> Weight {
        Weight { ref_time: self.ref_time * o, proof_size: self.proof_size * o }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct RuntimeDbWeight {
    pub read: u64,
    pub write: u64,
}
impl RuntimeDbWeight {
    pub const fn reads(self, r: u64) -> Weight {
        Weight::from_parts(self.read.saturating_mul(r), 0)
    }
    pub const fn writes(self, w: u64) -> Weight {
        Weight::from_parts(self.write.saturating_mul(w), 0)
    }
    pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
        Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
    }
}
pub mod constants {
    use super::*;
    pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
    pub struct RocksDbWeight;
    impl crate::traits::Get<RuntimeDbWeight> for RocksDbWeight {
        fn get() -> RuntimeDbWeight {
            RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
        }
    }
    impl RocksDbWeight {
        pub fn get() -> RuntimeDbWeight {
            RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
        }
    }
}
