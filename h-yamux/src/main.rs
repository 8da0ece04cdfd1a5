mod common;
mod life;
mod raw;
mod xfer;

use mc_engine::{main_cli, Check};

fn main() {
    futures_core::preempt::set(mc_engine::exec::preempt);
    main_cli(vec![
        Check { property: "Y01", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: xfer::y01 },
        Check { property: "Y02", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: xfer::y02 },
        Check { property: "Y03", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: xfer::y03 },
        Check { property: "Y04", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: life::y04 },
        Check { property: "Y05", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: life::y05 },
        Check { property: "Y06", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: life::y06 },
        Check { property: "Y07", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: raw::y07 },
        Check { property: "Y08", assumptions: vec!["the connection is a lossless byte stream, time passes only when no task can run"], scenarios: raw::y08 },
    ])
}
