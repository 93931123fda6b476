#[path = "../../field/src/common.rs"]
pub mod common;
#[path = "../../field/src/c04.rs"]
pub mod c04;
#[path = "../../field/src/c05.rs"]
pub mod c05;
#[path = "../../field/src/c06.rs"]
pub mod c06;
#[path = "../../field/src/c07.rs"]
pub mod c07;
#[path = "../../field/src/c08.rs"]
pub mod c08;
