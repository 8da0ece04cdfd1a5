//! What is read out of addresses (A02).
use std::borrow::Cow;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::Arc;
use std::sync::Mutex;

use crate::world::{start, stop};
use mc_engine::exec;
use mc_engine::pipe::PipeCfg;
use mc_engine::{bad, choose, outcome, tick_steps, Scenario, R};
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::PeerId;
use tentacle::utils::dns::DNSResolver;
use tentacle::utils::{
    extract_peer_id, is_reachable, multiaddr_to_socketaddr, socketaddr_to_multiaddr,
};

fn id(b: u8) -> Vec<u8> {
    let mut v = vec![0x12, 32];
    v.extend(vec![b; 32]);
    v
}

fn menu() -> Vec<Protocol<'static>> {
    vec![
        Protocol::IP4([127, 0, 0, 1].into()),
        Protocol::IP4([255, 255, 255, 255].into()),
        Protocol::IP6("::1".parse().unwrap()),
        Protocol::IP6("::ffff:1.2.3.4".parse().unwrap()),
        Protocol::DNS4(Cow::Borrowed("127.0.0.2")),
        Protocol::DNS6(Cow::Borrowed("::2")),
        Protocol::TCP(0),
        Protocol::TCP(80),
        Protocol::TCP(65535),
        Protocol::Ws,
        Protocol::Wss,
        Protocol::TLS(Cow::Borrowed("x")),
        Protocol::P2P(Cow::Owned(id(1))),
        Protocol::P2P(Cow::Owned(id(255))),
    ]
}

/// Run one future on the executor.
fn run<T: Send + 'static>(f: impl std::future::Future<Output = T> + Send + 'static) -> R<T> {
    let slot = Arc::new(Mutex::new(None));
    let s = slot.clone();
    exec::spawn("resolve", async move {
        *s.lock().unwrap() = Some(f.await);
    });
    exec::run(exec::Opts::default());
    let got = slot.lock().unwrap().take();
    match got {
        Some(v) => Ok(v),
        None => Err(bad::<()>("resolve", "never resolved").unwrap_err()),
    }
}

fn components(depth: usize) -> R<()> {
    let menu = menu();
    let n = choose(depth + 1, "components");
    let parts: Vec<Protocol> = (0..n)
        .map(|_| menu[choose(menu.len(), "component")].clone())
        .collect();
    let addr: Multiaddr = parts.iter().cloned().collect();
    tick_steps(1);
    let host = |p: &Protocol| matches!(p, Protocol::IP4(_) | Protocol::IP6(_));
    let name = |p: &Protocol| matches!(p, Protocol::DNS4(_) | Protocol::DNS6(_));

    let pair = |k: usize| -> Option<SocketAddr> {
        match (&parts[k], parts.get(k + 1)) {
            (Protocol::IP4(ip), Some(Protocol::TCP(p))) => Some((*ip, *p).into()),
            (Protocol::IP6(ip), Some(Protocol::TCP(p))) => Some((*ip, *p).into()),
            _ => None,
        }
    };
    let pairs: Vec<SocketAddr> = (0..n).filter_map(pair).collect();
    let got = multiaddr_to_socketaddr(&addr);
    // with more than one host only that it is one of the pairs
    let ok = match got {
        Some(s) if parts.iter().filter(|p| host(p)).count() > 1 => pairs.contains(&s),
        None if parts.iter().filter(|p| host(p)).count() > 1 => true,
        got => got == pairs.first().copied(),
    };
    if !ok {
        return bad("socket", format!("{}: {:?}, not of {:?}", addr, got, pairs));
    }

    let want = parts.iter().find_map(|p| match p {
        Protocol::P2P(b) => Some(b.to_vec()),
        _ => None,
    });
    let got = extract_peer_id(&addr).map(PeerId::into_bytes);
    if got != want {
        return bad("peer", format!("{}: peer id {:02x?}", addr, got));
    }

    let pair = |k: usize| -> Option<SocketAddr> {
        match (&parts[k], parts.get(k + 1)) {
            (Protocol::DNS4(_), Some(Protocol::TCP(p))) => {
                Some((Ipv4Addr::new(127, 0, 0, 2), *p).into())
            }
            (Protocol::DNS6(_), Some(Protocol::TCP(p))) => {
                Some(("::2".parse::<Ipv6Addr>().unwrap(), *p).into())
            }
            _ => None,
        }
    };
    let pairs: Vec<SocketAddr> = (0..n).filter_map(pair).collect();
    if parts.iter().filter(|p| name(p)).count() > 1 {
        return Ok(());
    }
    let got = match DNSResolver::new(addr.clone()) {
        Some(r) => match run(r)? {
            Ok(a) => Some(a),
            Err((a, e)) => return bad("resolve", format!("{} failed: {}", a, e)),
        },
        None => None,
    };
    let want = pairs.first().map(|s| {
        let mut v = vec![match s.ip() {
            IpAddr::V4(ip) => Protocol::IP4(ip),
            IpAddr::V6(ip) => Protocol::IP6(ip),
        }];
        v.push(Protocol::TCP(s.port()));
        let kind = parts
            .iter()
            .find(|p| matches!(p, Protocol::Ws | Protocol::Wss | Protocol::TLS(_)));
        match kind {
            Some(Protocol::TLS(_)) | None => (),
            Some(k) => v.push(k.clone()),
        }
        if let Some(b) = want {
            v.push(Protocol::P2P(Cow::Owned(b)));
        }
        v.into_iter().collect::<Multiaddr>()
    });
    if got != want {
        return bad(
            "resolve",
            format!("{} becomes {:?} instead of {:?}", addr, got, want),
        );
    }
    outcome(&[got.is_some() as u8, pairs.len() as u8]);
    Ok(())
}

fn sockets() -> R<()> {
    let port = (choose(256, "high") as u16) << 8;
    let ips: Vec<IpAddr> = vec![
        [0, 0, 0, 0].into(),
        [127, 0, 0, 1].into(),
        [255, 255, 255, 255].into(),
        "::".parse().unwrap(),
        "::1".parse().unwrap(),
        "::ffff:1.2.3.4".parse().unwrap(),
        "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff".parse().unwrap(),
    ];
    for low in 0..256u16 {
        for ip in &ips {
            tick_steps(1);
            let s = SocketAddr::new(*ip, port | low);
            let a = socketaddr_to_multiaddr(s);
            if multiaddr_to_socketaddr(&a) != Some(s) || a.iter().count() != 2 {
                return bad("socket", format!("{} becomes {}", s, a));
            }
        }
    }
    Ok(())
}

/// First and last address of each range that is not reachable.
const V4: &[([u8; 4], [u8; 4])] = &[
    ([0, 0, 0, 0], [0, 0, 0, 0]),
    ([10, 0, 0, 0], [10, 255, 255, 255]),
    ([127, 0, 0, 0], [127, 255, 255, 255]),
    ([169, 254, 0, 0], [169, 254, 255, 255]),
    ([172, 16, 0, 0], [172, 31, 255, 255]),
    ([192, 0, 2, 0], [192, 0, 2, 255]),
    ([192, 168, 0, 0], [192, 168, 255, 255]),
    ([198, 51, 100, 0], [198, 51, 100, 255]),
    ([203, 0, 113, 0], [203, 0, 113, 255]),
    ([255, 255, 255, 255], [255, 255, 255, 255]),
];

fn v4() -> R<()> {
    let first = (choose(256, "first") as u32) << 24;
    let ranges: Vec<(u32, u32)> = V4
        .iter()
        .map(|(a, b)| (u32::from_be_bytes(*a), u32::from_be_bytes(*b)))
        .collect();
    for rest in 0..1u32 << 24 {
        let n = first | rest;
        let local = ranges.iter().any(|(a, b)| *a <= n && n <= *b);
        if is_reachable(Ipv4Addr::from(n).into()) == local {
            return bad("reachable", format!("{}", Ipv4Addr::from(n)));
        }
    }
    tick_steps(1 << 24);
    Ok(())
}

fn v6() -> R<()> {
    let high = (choose(256, "high") as u16) << 8;
    let seconds = [0u16, 1, 0xdb7, 0xdb8, 0xdb9, 0xffff];
    let mut rests: Vec<[u16; 6]> = vec![[0; 6], [0xffff; 6]];
    for k in 0..6 {
        for bit in 0..16 {
            let mut r = [0; 6];
            r[k] = 1 << bit;
            rests.push(r);
        }
    }
    for low in 0..256u16 {
        for second in &seconds {
            for r in &rests {
                tick_steps(1);
                let a = high | low;
                let ip = Ipv6Addr::new(a, *second, r[0], r[1], r[2], r[3], r[4], r[5]);
                let o = ip.octets();
                let local = match (o[0], o[1]) {
                    (0xff, x) => x & 15 != 14,
                    (0xfc, _) | (0xfd, _) => true,
                    (0xfe, x) => x >= 0x80,
                    (0x20, 0x01) => o[2] == 0x0d && o[3] == 0xb8,
                    _ => u128::from_be_bytes(o) < 2,
                };
                if is_reachable(ip.into()) == local {
                    return bad("reachable", format!("{}", ip));
                }
            }
        }
    }
    Ok(())
}

pub fn a02(thorough: bool) -> Vec<Scenario> {
    let depth = if thorough { 5 } else { 4 };
    vec![
        Scenario::new(
            "components",
            0,
            600,
            "all sequences of up to four (thorough: five) of 14 components: socket address, peer id and resolved name",
            move || {
                start(PipeCfg::default(), 0);
                let r = components(depth);
                stop();
                r
            },
        ),
        Scenario::new("sockets", 0, 60, "all ports with seven addresses", sockets),
        Scenario::new("ipv4", 0, 120, "all IPv4 addresses", v4),
        Scenario::new(
            "ipv6",
            0,
            120,
            "all first segments with six second ones and 98 rests",
            v6,
        ),
    ]
}
