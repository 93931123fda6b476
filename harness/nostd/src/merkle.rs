#[path = "../../merkle/src/common.rs"]
pub mod common;
#[path = "../../merkle/src/c12.rs"]
pub mod c12;
#[path = "../../merkle/src/c14.rs"]
pub mod c14;
