#[path = "../../alg/src/common.rs"]
pub mod common;
#[path = "../../alg/src/c01.rs"]
pub mod c01;
#[path = "../../alg/src/c02.rs"]
pub mod c02;
#[path = "../../alg/src/c03.rs"]
pub mod c03;
