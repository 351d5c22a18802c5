pub use sp_runtime::TransactionOutcome;
use sp_runtime::{DispatchError, TransactionalError};
pub mod types;
pub mod unhashed;
pub use transactional::{in_storage_layer, with_storage_layer, with_transaction, with_transaction_unchecked};

pub mod bounded_btree_map {
    pub use bounded_collections::BoundedBTreeMap;
}
pub mod bounded_btree_set {
    pub use bounded_collections::BoundedBTreeSet;
}
pub mod bounded_vec {
    pub use bounded_collections::{BoundedSlice, BoundedVec};
}
pub mod weak_bounded_vec {
    pub use bounded_collections::WeakBoundedVec;
}
pub trait StorageList {}

pub mod transactional {
    use super::*;
    const TRANSACTION_LEVEL_KEY: &[u8] = b":transaction_level:";
    const LIMIT: u32 = 255;
    fn level() -> u32 {
        unhashed::get_or_default(TRANSACTION_LEVEL_KEY)
    }
    fn set(l: u32) {
        if l == 0 {
            unhashed::kill(TRANSACTION_LEVEL_KEY)
        } else {
            unhashed::put(TRANSACTION_LEVEL_KEY, &l)
        }
    }
    pub fn is_transactional() -> bool {
        level() > 0
    }
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            if std::thread::panicking() {
                return;
            }
            set(level() - 1)
        }
    }
    fn inc() -> Result<Guard, ()> {
        let l = level();
        if l >= LIMIT {
            return Err(());
        }
        set(l + 1);
        Ok(Guard)
    }
    pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
    where
        E: From<DispatchError>,
        F: FnOnce() -> TransactionOutcome<Result<T, E>>,
    {
        sp_io::storage::start_transaction();
        let g = match inc() {
            Ok(g) => g,
            Err(_) => {
                sp_io::storage::rollback_transaction();
                return Err(DispatchError::Transactional(TransactionalError::LimitReached).into());
            }
        };
        match f() {
            TransactionOutcome::Commit(r) => {
                sp_io::storage::commit_transaction();
                drop(g);
                r
            }
            TransactionOutcome::Rollback(r) => {
                sp_io::storage::rollback_transaction();
                std::mem::forget(g);
                r
            }
        }
    }
    pub fn with_transaction_unchecked<R, F: FnOnce() -> TransactionOutcome<R>>(f: F) -> R {
        sp_io::storage::start_transaction();
        let g = inc();
        match f() {
            TransactionOutcome::Commit(r) => {
                sp_io::storage::commit_transaction();
                drop(g);
                r
            }
            TransactionOutcome::Rollback(r) => {
                sp_io::storage::rollback_transaction();
                // the level was written inside the layer that has just been undone
                std::mem::forget(g);
                r
            }
        }
    }
    pub fn with_storage_layer<T, E, F>(f: F) -> Result<T, E>
    where
        E: From<DispatchError>,
        F: FnOnce() -> Result<T, E>,
    {
        with_transaction(|| {
            let r = f();
            if r.is_ok() {
                TransactionOutcome::Commit(r)
            } else {
                TransactionOutcome::Rollback(r)
            }
        })
    }
    pub fn in_storage_layer<T, E, F>(f: F) -> Result<T, E>
    where
        E: From<DispatchError>,
        F: FnOnce() -> Result<T, E>,
    {
        if is_transactional() {
            f()
        } else {
            with_storage_layer(f)
        }
    }
}
