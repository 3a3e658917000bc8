//! Witness program: one entry type per supported derive shape. Only type-checked and analysed, never run.
pub mod uni {
    use omnipaxos::macros::UniCacheEntry;
    use omnipaxos::{storage::Entry, unicache::*};
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, UniCacheEntry)]
    pub struct Wit {
        pub plain_a: u64,
        #[unicache(encoding(u8), size(10))]
        pub enc_a: String,
        pub plain_b: u64,
        #[unicache(encoding(u16), size(20), cache(lfu))]
        pub enc_b: String,
        #[unicache(encoding(u32), size(30), cache(lru))]
        pub enc_c: u64,
    }
}
