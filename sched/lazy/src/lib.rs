//! lazy_static on the controlled scheduler.
pub use shuttle::lazy_static;
pub use shuttle::lazy_static::{initialize, Lazy, LazyStatic};
