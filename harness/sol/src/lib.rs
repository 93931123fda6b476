//! An interpreter for the subset of Solidity 0.6 and Yul that the contracts
//! of the repository use, over a flat EVM-like memory.
pub mod ast;
pub mod comp;
pub mod lex;
pub mod vm;
pub mod w;
pub use ast::{Contract, Parser};
pub use comp::DEFINITE;
pub use vm::{keccak, Halt, Machine, V};
pub use w::W;
use std::sync::Arc;

/// Contracts of a source text
pub fn parse(src: &str) -> Result<Vec<Arc<Contract>>, String> {
    Ok(Parser::file(src)?.into_iter().map(Arc::new).collect())
}
