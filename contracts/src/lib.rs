//! Contracts of the functions in /repo, as executable Rust.
//!
//! Each public function below is one contract: `requires` states the precondition, the calls are the real
//! functions of /repo, `ensures` states the postcondition. `spec_*` modules define the functions the
//! postconditions compare with.
#![allow(clippy::too_many_arguments)]
pub mod aucpace_agree;
pub mod aucpace_serde_contracts;
pub mod tokens;
pub mod aucpace_client;
pub mod aucpace_server;
pub mod aucpace_spec;
pub mod binary;
pub mod ghost;
pub mod hostile;
pub mod shims;
pub mod spake2_contracts;
pub mod spake2_spec;
pub mod srp_contracts;
pub mod srp_spec;
pub mod trace;
