#[path = "../gen/weak/channel/mod.rs"]
pub mod channel;
