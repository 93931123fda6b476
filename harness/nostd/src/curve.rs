#[path = "../../curve/src/common.rs"]
pub mod common;
#[path = "../../curve/src/c09.rs"]
pub mod c09;
#[path = "../../curve/src/c10.rs"]
pub mod c10;
#[path = "../../curve/src/c11.rs"]
pub mod c11;
