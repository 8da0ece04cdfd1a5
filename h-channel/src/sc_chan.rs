#[path = "../gen/sc/channel/mod.rs"]
pub mod channel;
