//! The suites: everything which uses the code under test.
pub mod enums;
pub mod ptr;
pub mod types;
pub mod worker;
pub use tagged_box;
pub use tbx_engine;
