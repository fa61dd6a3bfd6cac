//! The part of the harness which doesn't depend on the code under test.
pub mod ledger;
pub mod place;
#[cfg(feature = "gen")]
pub mod gen;
pub mod run;
pub mod track;

#[cfg(not(miri))]
#[global_allocator]
static LEDGER: ledger::Ledger = ledger::Ledger;
