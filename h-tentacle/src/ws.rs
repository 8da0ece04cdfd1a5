//! Websocket connections: the byte stream between the messages.
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};

use crate::duo::history_seen;
use crate::hostile::{Role, Siege, B, UPGRADE};
use crate::judge;
use crate::raw::*;
use crate::world::*;

const BINARY: u8 = 2;
const TEXT: u8 = 1;
const PING: u8 = 9;
const PONG: u8 = 10;

/// One message from a client, masked as clients must.
fn ws(op: u8, body: &[u8]) -> Vec<u8> {
    part(0x80 | op, body)
}

fn part(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    if body.len() < 126 {
        v.push(0x80 | body.len() as u8);
    } else {
        v.push(0x80 | 126);
        v.extend_from_slice(&(body.len() as u16).to_be_bytes());
    }
    let mask = [0x11, 0x22, 0x33, 0x44];
    v.extend_from_slice(&mask);
    v.extend(body.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
    v
}

/// Messages from the server: opcode and body; the answer to the upgrade is skipped.
fn server_messages(raw: &Raw) -> Vec<(u8, Vec<u8>)> {
    let b = raw.bytes.borrow();
    let start = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(i) => i + 4,
        None => return Vec::new(),
    };
    let mut v = Vec::new();
    let mut b = &b[start..];
    while b.len() >= 2 {
        let (len, head) = match b[1] & 0x7f {
            126 => (u16::from_be_bytes([b[2], b[3]]) as usize, 4),
            n => (n as usize, 2),
        };
        if b.len() < head + len {
            break;
        }
        v.push((b[0] & 15, b[head..head + len].to_vec()));
        b = &b[head + len..];
    }
    v
}

/// Bytes of a muxer stream among the server's messages.
fn stream(raw: &Raw, id: u32) -> Vec<u8> {
    let all: Vec<u8> = server_messages(raw)
        .into_iter()
        .filter(|m| m.0 == BINARY)
        .flat_map(|m| m.1)
        .collect();
    let mut out = Vec::new();
    let mut b = &all[..];
    while b.len() >= 12 {
        let f = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let body = if b[1] == DATA { f(8) as usize } else { 0 };
        if b.len() < 12 + body {
            break;
        }
        if b[1] == DATA && f(4) == id {
            out.extend_from_slice(&b[12..12 + body]);
        }
        b = &b[12 + body..];
    }
    out
}

/// What lies between two parts of the stream.
fn between(k: usize) -> Vec<u8> {
    match k {
        0 => Vec::new(),
        1 => ws(PING, b"are you there"),
        2 => ws(PONG, b""),
        3 => ws(TEXT, b"hi"),
        4 => ws(BINARY, b""),
        5 => {
            let mut v = ws(PING, b"");
            v.extend(ws(PING, b"again"));
            v
        }
        _ => ws(TEXT, b""),
    }
}

/// A good exchange in two or three messages, cut at every position.
fn cuts(parts: usize, kinds: usize, fragmented: bool, opts: Opts) -> R<()> {
    let s = Siege::over(Kind::Both, false, Role::Client, true);
    let raw = s.raw();
    raw.send(UPGRADE_ONLY());
    settle();
    let mut good = data(SYN, 1, &select("/p/1", &["1"]));
    good.extend(data(0, 1, &msg(b"hello")));
    let mut at = 0;
    let mut rest: &[u8] = &good;
    let together = choose(2, "together") == 0;
    let mut pings = Vec::new();
    let mut out = Vec::new();
    let mut chunks: Vec<Vec<u8>> = Vec::new();
    for i in 0..parts {
        let n = if i + 1 == parts {
            rest.len()
        } else {
            let left = rest.len() - (parts - 1 - i) + 1;
            choose(left, "cut")
        };
        let k = choose(kinds, "between");
        match k {
            1 => pings.push(b"are you there".to_vec()),
            5 => {
                pings.push(Vec::new());
                pings.push(b"again".to_vec())
            }
            _ => (),
        }
        let mut c = between(k);
        if fragmented && n > 1 {
            c.extend(part(BINARY, &rest[..1]));
            c.extend(part(0, &rest[1..n / 2]));
            c.extend(part(0x80, &rest[n / 2..n]));
        } else {
            c.extend(ws(BINARY, &rest[..n]));
        }
        chunks.push(c);
        rest = &rest[n..];
        at += n;
    }
    let _ = at;
    if together {
        for c in chunks {
            out.extend(c)
        }
        raw.send(&out);
    } else {
        for c in chunks {
            raw.send(&c);
            settle();
        }
    }
    let end = exec::run(Opts {
        horizon: exec::now() + SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the service does not come to rest");
    }
    history_seen();
    judge::no_panic()?;
    let l = log();
    let got: Vec<_> = l
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Recv {
                lv: Lv::Service,
                id: 2,
                proto: 1,
                data,
            } if e.svc == B => Some(data.to_vec()),
            _ => None,
        })
        .collect();
    if got != vec![b"hello".to_vec()] {
        return bad(
            "stream",
            format!("the stream carries one message, the handler got {:?}", got),
        );
    }
    // and back
    drop(s.b.send_message_to(sid(2), pid(1), bytes::Bytes::from_static(b"there")));
    settle();
    let mut want = select("/p/1", &["1"]);
    want.extend(msg(b"there"));
    if stream(&raw, 1) != want {
        return bad("back", "what the service sends does not arrive as sent");
    }
    // every ping is answered, or at least the last of those that came together
    let pongs: Vec<Vec<u8>> = server_messages(&raw)
        .into_iter()
        .filter(|m| m.0 == PONG)
        .map(|m| m.1)
        .collect();
    if !pings.is_empty() && pongs.last() != pings.last() {
        return bad("pong", format!("pings {:?}, pongs {:?}", pings, pongs));
    }
    s.judge()?;
    stop();
    Ok(())
}

/// Two services over a websocket: messages of every size, both ways, through connections of
/// several capacities.
fn sizes(n: usize, caps: &[usize], opts: Opts) -> R<()> {
    const SIZES: &[usize] = &[
        0, 1, 125, 126, 127, 4095, 8180, 8192, 16_385, 20_000, 65_535, 65_536, 66_000, 131_073,
        250_000,
    ];
    let mut pipe = mc_engine::pipe::PipeCfg::default();
    let cap = caps[choose(caps.len(), "capacity")];
    if cap > 0 {
        pipe.cap = cap;
    }
    start(pipe, 0);
    let ps = || vec![proto(1, Kind::Both)];
    let mut cb = cfg(ps()).listen(1);
    cb.ws = true;
    let b = service(cb);
    let a = service(cfg(ps()));
    settle();
    drop(a.dial(addr_ws(1), all()));
    settle();
    let sent: Vec<(usize, usize)> = (0..n)
        .map(|_| (choose(2, "from"), SIZES[choose(SIZES.len(), "size")]))
        .collect();
    let body = |i: usize, len: usize| -> bytes::Bytes {
        (0..len)
            .map(|k| (k / 251 + k * 7 + i * 31) as u8)
            .collect::<Vec<u8>>()
            .into()
    };
    for (i, (from, len)) in sent.iter().enumerate() {
        let s = if *from == 0 { &a } else { &b };
        drop(s.send_message_to(sid(1), pid(1), body(i, *len)));
    }
    let end = exec::run(Opts {
        horizon: exec::now() + 5 * SEC,
        max_steps: 200_000,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    history_seen();
    judge::no_panic()?;
    let l = log();
    for from in 0..2 {
        // service 0 is b
        let got: Vec<_> = l
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Recv {
                    lv: Lv::Service,
                    data,
                    ..
                } if e.svc == from => Some(data.clone()),
                _ => None,
            })
            .collect();
        let want: Vec<_> = sent
            .iter()
            .enumerate()
            .filter(|(_, s)| s.0 == from)
            .map(|(i, s)| body(i, s.1))
            .collect();
        if got != want {
            let len = |v: &[bytes::Bytes]| v.iter().map(|m| m.len()).collect::<Vec<_>>();
            return bad(
                "sizes",
                format!(
                    "messages of {:?} bytes arrive as messages of {:?} bytes, or changed",
                    len(&want),
                    len(&got)
                ),
            );
        }
    }
    stop();
    Ok(())
}

#[allow(non_snake_case)]
fn UPGRADE_ONLY() -> &'static [u8] {
    let n = UPGRADE.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
    &UPGRADE[..n]
}

pub fn w01(t: bool) -> Vec<Scenario> {
    let fifo = Opts {
        sched: false,
        ..Opts::default()
    };
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let b = "a good exchange over a websocket, cut into messages at every position, with control, text and empty messages in between";
    let mut v = vec![
        Scenario::new("cut", 0, 200, b, move || cuts(2, 7, false, fifo)),
        Scenario::new("fragments", 0, 200, b, move || cuts(2, 2, true, fifo)),
        Scenario::new("whole-dev", 1 + t as usize, 200, b, move || {
            cuts(1, 7, false, o)
        }),
    ];
    v.push(Scenario::new("cuts", 0, 600, b, move || {
        cuts(3, if t { 7 } else { 2 }, false, fifo)
    }));
    let c = "messages of 15 sizes between two services over a websocket, through connections of several capacities";
    v.push(Scenario::new("sizes", 0, 300, c, move || {
        sizes(2, &[0, 700, 30_000], fifo)
    }));
    v.push(Scenario::new("sizes-dev", 1, 300, c, move || {
        sizes(1, &[0, 70_000], o)
    }));
    if t {
        v.push(Scenario::new("sizes-three", 0, 900, c, move || {
            sizes(3, &[0, 30_000], fifo)
        }));
        v.push(Scenario::new("cut-dev", 1, 900, b, move || {
            cuts(2, 3, false, o)
        }));
    }
    v
}
