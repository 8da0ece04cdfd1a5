#[path = "../gen/plain/channel/mod.rs"]
pub mod channel;
