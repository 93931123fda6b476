#[path = "../../stark/src/expr.rs"]
pub mod expr;
#[path = "../../stark/src/proto.rs"]
pub mod proto;
#[path = "../../stark/src/sys.rs"]
pub mod sys;
#[path = "../../stark/src/c24.rs"]
pub mod c24;
#[path = "../../stark/src/c23.rs"]
pub mod c23;
#[path = "../../stark/src/c19.rs"]
pub mod c19;
