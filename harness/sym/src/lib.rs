#[path = "../../props/sym.rs"]
pub mod sym;
include!("../../props/list.rs");
