//! Stand-in for pallet-timestamp: a settable clock.
use frame_support::storage::types::{StorageInstance, StorageValue, ValueQuery};
use frame_support::Parameter;
use sp_runtime::traits::{AtLeast32Bit, UniqueSaturatedInto};

pub trait Config: frame_system::Config {
    type Moment: Parameter + Default + AtLeast32Bit + Copy + frame_support::codec::MaxEncodedLen + sp_runtime::traits::Member;
}
pub struct Pallet<T>(core::marker::PhantomData<T>);
pub struct NowPrefix;
impl StorageInstance for NowPrefix {
    const ID: u64 = 21;
    fn instance() -> u64 {
        0
    }
}
impl<T: Config> Pallet<T> {
    pub fn get() -> T::Moment {
        StorageValue::<NowPrefix, T::Moment, ValueQuery>::get()
    }
    pub fn now() -> T::Moment {
        Self::get()
    }
    pub fn set_timestamp(m: T::Moment) {
        StorageValue::<NowPrefix, T::Moment, ValueQuery>::put(m)
    }
}
impl<T: Config> frame_support::traits::UnixTime for Pallet<T> {
    fn now() -> core::time::Duration {
        let m: u64 = Pallet::<T>::get().unique_saturated_into();
        core::time::Duration::from_millis(m)
    }
}
impl<T: Config> frame_support::traits::Time for Pallet<T> {
    type Moment = T::Moment;
    fn now() -> T::Moment {
        Self::get()
    }
}
