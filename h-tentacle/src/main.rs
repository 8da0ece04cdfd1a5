mod addr;
mod crash;
mod dial;
mod duo;
mod hostile;
mod ident;
mod judge;
mod life;
mod nego;
mod notify;
mod raw;
mod remote;
mod stall;
mod talk;
mod tasks;
mod ways;
mod world;
mod ws;

use duo::*;
use mc_engine::exec::Opts;
use mc_engine::{Check, Scenario};
use world::Kind;

const KINDS: &[Kind] = &[
    Kind::Service,
    Kind::Session,
    Kind::Event,
    Kind::Both,
    Kind::Two,
    Kind::SessionBoth,
    Kind::Spawn,
];

fn fam(t: bool, menu: &'static [Op], kinds: &[Kind], j: Judge) -> Vec<Scenario> {
    let mut v = Vec::new();
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    for k in kinds {
        let d = if t { 2 } else { 1 };
        v.push(scen("one", *k, menu, 1, 1, d, 300, o, j));
        v.push(scen(
            "gap",
            *k,
            menu,
            2,
            if t { 80 } else { 40 },
            if t { 1 } else { 0 },
            600,
            o,
            j,
        ));
        v.push(scen("two", *k, menu, 2, 1, d, 600, o, j));
        v.push(scen("inside", *k, menu, 1, 1, d, 600, world::inside(), j));
        if t {
            v.push(scen(
                "inside-two",
                *k,
                menu,
                2,
                1,
                d,
                600,
                world::inside(),
                j,
            ));
        }
    }
    v
}

fn t02s(t: bool) -> Vec<Scenario> {
    let mut v = fam(t, OPS, KINDS, t02);
    v.extend(remote::t02(t, KINDS));
    v
}

fn t03s(t: bool) -> Vec<Scenario> {
    fam(t, OPS, &[Kind::Both], t03)
}

fn t07s(t: bool) -> Vec<Scenario> {
    fam(t, STOPS, &[Kind::Both], t07)
}

/// what the virtual world of the services leaves out
const WORLD: &str = "connections are lossless byte streams in memory, tasks run one at a time and are interrupted only where they use a channel, time passes only when no task can run";

fn main() {
    futures_core::preempt::set(mc_engine::exec::preempt);
    mc_engine::main_cli(vec![
        Check {
            property: "A02",
            assumptions: vec!["names are resolved to the numbers they spell"],
            scenarios: addr::a02,
        },
        Check {
            property: "T01",
            assumptions: vec![WORLD],
            scenarios: talk::t01,
        },
        Check {
            property: "T02",
            assumptions: vec![WORLD],
            scenarios: t02s,
        },
        Check {
            property: "T03",
            assumptions: vec![WORLD],
            scenarios: t03s,
        },
        Check {
            property: "T04",
            assumptions: vec![WORLD],
            scenarios: dial::t04,
        },
        Check {
            property: "T05",
            assumptions: vec![WORLD],
            scenarios: ident::t05,
        },
        Check {
            property: "T06",
            assumptions: vec![WORLD],
            scenarios: nego::t06,
        },
        Check {
            property: "T07",
            assumptions: vec![WORLD],
            scenarios: t07s,
        },
        Check {
            property: "T08",
            assumptions: vec![WORLD],
            scenarios: stall::t08,
        },
        Check {
            property: "T09",
            assumptions: vec![WORLD],
            scenarios: notify::t09,
        },
        Check {
            property: "T10",
            assumptions: vec![WORLD],
            scenarios: hostile::t10,
        },
        Check {
            property: "T11",
            assumptions: vec![WORLD],
            scenarios: life::t11,
        },
        Check {
            property: "T12",
            assumptions: vec![WORLD],
            scenarios: life::t12,
        },
        Check {
            property: "T13",
            assumptions: vec![WORLD],
            scenarios: life::t13,
        },
        Check {
            property: "T14",
            assumptions: vec![WORLD],
            scenarios: tasks::t14,
        },
        Check {
            property: "T15",
            assumptions: vec![WORLD],
            scenarios: crash::t15,
        },
        Check {
            property: "T16",
            assumptions: vec![WORLD],
            scenarios: ways::t16,
        },
        Check {
            property: "W01",
            assumptions: vec![WORLD],
            scenarios: ws::w01,
        },
    ])
}
