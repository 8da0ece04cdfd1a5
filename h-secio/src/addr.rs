//! Addresses (A01).
use std::borrow::Cow;
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

use bytes::{Bytes, BytesMut};
use mc_engine::{bad, choose, tick_steps, Scenario, R};
use tentacle_multiaddr::{Multiaddr, Protocol};

fn ids() -> Vec<Vec<u8>> {
    [0u8, 0x7f, 0xff].iter().map(|b| {
        let mut v = vec![0x12, 32];
        v.extend(vec![*b; 32]);
        v
    }).collect()
}

fn menu() -> Vec<Protocol<'static>> {
    let mut v = vec![];
    let names: Vec<String> = vec![
        "".into(), "a".into(), "localhost".into(), "ex-am_ple.com".into(), "\u{4e2d}.x".into(), "tcp".into(), " ".into(),
        "a".repeat(127), "b".repeat(128), "c".repeat(300),
    ];
    for n in names {
        v.push(Protocol::DNS4(Cow::Owned(n.clone())));
        v.push(Protocol::DNS6(Cow::Owned(n.clone())));
        v.push(Protocol::TLS(Cow::Owned(n)));
    }
    for a in [[0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [1, 2, 3, 4]].iter() {
        v.push(Protocol::IP4(Ipv4Addr::from(*a)));
    }
    for a in ["::", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "2001:db8::1:0:0:1", "::1.2.3.4"].iter() {
        v.push(Protocol::IP6(a.parse().unwrap()));
    }
    for p in [0u16, 1, 80, 255, 256, 65535].iter() {
        v.push(Protocol::TCP(*p));
    }
    for i in ids() {
        v.push(Protocol::P2P(Cow::Owned(i)));
    }
    v.push(Protocol::Ws);
    v.push(Protocol::Wss);
    v
}

/// Expected encoding, written independently.
fn encode(p: &Protocol) -> Vec<u8> {
    fn var(mut n: usize) -> Vec<u8> {
        let mut v = vec![];
        while n >= 0x80 {
            v.push(n as u8 | 0x80);
            n >>= 7;
        }
        v.push(n as u8);
        v
    }
    let data = |code: usize, d: &[u8]| {
        let mut v = var(code);
        v.extend(var(d.len()));
        v.extend_from_slice(d);
        v
    };
    let fixed = |code: usize, d: &[u8]| {
        let mut v = var(code);
        v.extend_from_slice(d);
        v
    };
    match p {
        Protocol::DNS4(s) => data(54, s.as_bytes()),
        Protocol::DNS6(s) => data(55, s.as_bytes()),
        Protocol::TLS(s) => data(448, s.as_bytes()),
        Protocol::P2P(b) => data(421, b),
        Protocol::IP4(a) => fixed(4, &a.octets()),
        Protocol::IP6(a) => fixed(41, &a.octets()),
        Protocol::TCP(p) => fixed(6, &p.to_be_bytes()),
        Protocol::Ws => fixed(477, &[]),
        Protocol::Wss => fixed(478, &[]),
    }
}

fn show(p: &Protocol) -> String {
    match p {
        Protocol::DNS4(s) => format!("/dns4/{}", s),
        Protocol::DNS6(s) => format!("/dns6/{}", s),
        Protocol::TLS(s) => format!("/tls/{}", s),
        Protocol::P2P(b) => format!("/p2p/{}", bs58::encode(b).into_string()),
        Protocol::IP4(a) => format!("/ip4/{}", a),
        Protocol::IP6(a) => format!("/ip6/{}", a),
        Protocol::TCP(p) => format!("/tcp/{}", p),
        Protocol::Ws => "/ws".into(),
        Protocol::Wss => "/wss".into(),
    }
}

fn check_built(c: &[Protocol<'static>]) -> R<()> {
    tick_steps(1);
    let a: Multiaddr = c.iter().cloned().collect();
    let want: Vec<u8> = c.iter().flat_map(|p| encode(p)).collect();
    let text: String = c.iter().map(show).collect();
    if a.to_vec() != want || a.as_ref() != &want[..] || a.len() != want.len() || a.is_empty() != want.is_empty() {
        return bad("bytes", format!("{} encodes as {:02x?}", text, a.to_vec()));
    }
    if a.to_string() != text {
        return bad("text", format!("{} prints as {}", text, a));
    }
    let same = |n: &str, b: Result<Multiaddr, String>| -> R<()> {
        match b {
            Ok(b) if b == a => Ok(()),
            b => bad(n, format!("{} comes back as {:?}", text, b)),
        }
    };
    same("from-bytes", Multiaddr::try_from(want.clone()).map_err(|e| e.to_string()))?;
    same("from-bytes", Multiaddr::try_from(Bytes::from(want.clone())).map_err(|e| e.to_string()))?;
    same("from-bytes", Multiaddr::try_from(BytesMut::from(&want[..])).map_err(|e| e.to_string()))?;
    same("from-text", text.parse().map_err(|e: tentacle_multiaddr::Error| e.to_string()))?;
    same("from-text", Multiaddr::try_from(text.clone()).map_err(|e| e.to_string()))?;
    same("from-text", Multiaddr::try_from(&text[..]).map_err(|e| e.to_string()))?;
    same("serde-text", serde_json::to_string(&a).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string()))?;
    let got: Vec<Protocol> = a.iter().collect();
    if got != c || (&a).into_iter().count() != c.len() {
        return bad("components", format!("{} has components {:?}", text, got));
    }
    // push, pop and replace agree with the list of components
    let mut b: Multiaddr = Vec::new().into_iter().collect();
    for p in c {
        b.push(p.clone());
    }
    same("push", Ok(b.clone()))?;
    for p in c.iter().rev() {
        match b.pop() {
            Some(q) if q == *p => {}
            q => return bad("pop", format!("{}: popped {:?}", text, q)),
        }
    }
    if b.pop().is_some() || !b.is_empty() {
        return bad("pop", format!("{}: something is left", text));
    }
    for i in 0..=c.len() {
        let r = a.replace(i, |p| if *p == Protocol::TCP(1) { None } else { Some(Protocol::TCP(7)) });
        let want = if i < c.len() && c[i] != Protocol::TCP(1) {
            let mut d = c.to_vec();
            d[i] = Protocol::TCP(7);
            Some(d.into_iter().collect::<Multiaddr>())
        } else {
            None
        };
        if r != want {
            return bad("replace", format!("{} at {}: {:?}", text, i, r));
        }
    }
    if c.len() == 1 {
        same("from-component", Ok(Multiaddr::from(c[0].clone())))?;
        match &c[0] {
            Protocol::IP4(x) => same("from-ip", Ok(Multiaddr::from(IpAddr::V4(*x))))?,
            Protocol::IP6(x) => same("from-ip", Ok(Multiaddr::from(IpAddr::V6(*x))))?,
            _ => {}
        }
    }
    Ok(())
}

fn pick(n: usize, what: &str) -> Vec<Protocol<'static>> {
    let m = menu();
    (0..n).map(|_| m[choose(m.len(), what)].clone()).collect()
}

fn built(depth: usize) -> R<()> {
    let n = choose(depth + 1, "components");
    let c = pick(n, "component");
    check_built(&c)
}

/// What the bytes say, written independently.
fn decode(mut d: &[u8]) -> Option<Vec<Protocol<'static>>> {
    fn var(d: &mut &[u8]) -> Option<usize> {
        let mut n = 0u128;
        for i in 0.. {
            let (b, rest) = d.split_first()?;
            *d = rest;
            n |= ((b & 0x7f) as u128) << (7 * i);
            if b & 0x80 == 0 {
                // the shortest form only
                return if i > 8 || (*b == 0 && i > 0) { None } else { Some(n as usize) };
            }
            if i > 8 {
                return None;
            }
        }
        None
    }
    fn take<'a>(d: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
        if n > d.len() {
            return None;
        }
        let (a, b) = d.split_at(n);
        *d = b;
        Some(a)
    }
    let mut v = vec![];
    while !d.is_empty() {
        let code = var(&mut d)?;
        let p = match code {
            54 | 55 | 448 | 421 => {
                let n = var(&mut d)?;
                let x = take(&mut d, n)?.to_vec();
                if code == 421 {
                    if x.len() != 34 || x[..2] != [0x12, 32] {
                        return None;
                    }
                    Protocol::P2P(Cow::Owned(x))
                } else {
                    let s = Cow::Owned(String::from_utf8(x).ok()?);
                    match code {
                        54 => Protocol::DNS4(s),
                        55 => Protocol::DNS6(s),
                        _ => Protocol::TLS(s),
                    }
                }
            }
            4 => {
                let x = take(&mut d, 4)?;
                Protocol::IP4(Ipv4Addr::new(x[0], x[1], x[2], x[3]))
            }
            41 => {
                let mut x = [0; 16];
                x.copy_from_slice(take(&mut d, 16)?);
                Protocol::IP6(Ipv6Addr::from(x))
            }
            6 => {
                let x = take(&mut d, 2)?;
                Protocol::TCP(u16::from_be_bytes([x[0], x[1]]))
            }
            477 => Protocol::Ws,
            478 => Protocol::Wss,
            _ => return None,
        };
        v.push(p);
    }
    Some(v)
}

/// What the text says, written independently.
fn read(t: &str) -> Option<Vec<Protocol<'static>>> {
    let mut parts = t.split('/');
    if parts.next() != Some("") {
        return None;
    }
    let mut v = vec![];
    while let Some(name) = parts.next() {
        let mut arg = || parts.next();
        v.push(match name {
            "dns4" => Protocol::DNS4(Cow::Owned(arg()?.to_string())),
            "dns6" => Protocol::DNS6(Cow::Owned(arg()?.to_string())),
            "tls" => Protocol::TLS(Cow::Owned(arg()?.to_string())),
            "ip4" => Protocol::IP4(arg()?.parse().ok()?),
            "ip6" => Protocol::IP6(arg()?.parse().ok()?),
            "tcp" => Protocol::TCP(arg()?.parse().ok()?),
            "p2p" => {
                let x = bs58::decode(arg()?).into_vec().ok()?;
                if x.len() != 34 || x[..2] != [0x12, 32] {
                    return None;
                }
                Protocol::P2P(Cow::Owned(x))
            }
            "ws" => Protocol::Ws,
            "wss" => Protocol::Wss,
            _ => return None,
        });
    }
    Some(v)
}

/// Whatever is accepted is a proper address.
fn judge_bytes(d: &[u8]) -> R<()> {
    tick_steps(1);
    if let Ok(a) = Multiaddr::try_from(d.to_vec()) {
        let c: Vec<Protocol<'static>> = a.iter().map(|p| p.acquire()).collect();
        if decode(d).as_ref() != Some(&c) {
            return bad("malformed", format!("{:02x?} is accepted as {}", d, a));
        }
        let again: Multiaddr = c.iter().cloned().collect();
        if again != a {
            return bad("canonical", format!("{:02x?} is accepted as {} but re-encodes as {:02x?}", d, a, again.to_vec()));
        }
        let slash = c.iter().any(|p| match p {
            Protocol::DNS4(s) | Protocol::DNS6(s) | Protocol::TLS(s) => s.contains('/'),
            _ => false,
        });
        if !slash {
            check_built(&c)?;
        }
    }
    Ok(())
}

fn judge_text(t: &str) -> R<()> {
    tick_steps(1);
    if let Ok(a) = t.parse::<Multiaddr>() {
        let c: Vec<Protocol<'static>> = a.iter().map(|p| p.acquire()).collect();
        if read(t).as_ref() != Some(&c) {
            return bad("malformed", format!("{:?} is accepted as {}", t, a));
        }
        check_built(&c)?;
        if a.to_string().parse::<Multiaddr>().ok().as_ref() != Some(&a) {
            return bad("text", format!("{:?} is accepted but does not survive printing", t));
        }
    }
    Ok(())
}

fn near_bytes() -> R<()> {
    let n = choose(2, "components") + 1;
    let m: Vec<Protocol<'static>> = menu().into_iter().filter(|p| encode(p).len() < 60).collect();
    let c: Vec<Protocol<'static>> = (0..n).map(|_| m[choose(m.len(), "component")].clone()).collect();
    let d: Vec<u8> = c.iter().flat_map(encode).collect();
    for i in 0..d.len() {
        judge_bytes(&d[..i])?;
        let mut x = d.clone();
        x.remove(i);
        judge_bytes(&x)?;
        for b in 0..=255u8 {
            if n == 2 && i > 12 && !(b < 3 || b > 253 || b == 0x80) {
                continue;
            }
            let mut x = d.clone();
            x[i] = b;
            judge_bytes(&x)?;
            let mut x = d.clone();
            x.insert(i, b);
            judge_bytes(&x)?;
        }
    }
    // non-minimal and overlong numbers in the first header
    for k in 1..12 {
        let mut x = vec![d[0] | 0x80];
        x.extend(vec![0x80; k - 1]);
        x.push(0);
        x.extend_from_slice(&d[1..]);
        judge_bytes(&x)?;
    }
    Ok(())
}

/// All byte strings of up to three bytes; thorough: also all headers followed by filler.
fn short_bytes() -> R<()> {
    let a = choose(257, "first");
    if a == 256 {
        return judge_bytes(&[]);
    }
    judge_bytes(&[a as u8])?;
    for b in 0..=255u8 {
        judge_bytes(&[a as u8, b])?;
        for c in 0..=255u8 {
            judge_bytes(&[a as u8, b, c])?;
        }
    }
    Ok(())
}

fn near_text() -> R<()> {
    let n = choose(2, "components") + 1;
    let m: Vec<Protocol<'static>> = menu().into_iter().filter(|p| show(p).len() < 60).collect();
    let c: Vec<Protocol<'static>> = (0..n).map(|_| m[choose(m.len(), "component")].clone()).collect();
    let t: Vec<char> = c.iter().map(show).collect::<String>().chars().collect();
    let alphabet: Vec<char> = "/0159afAFpQz:.-+ \u{e9}".chars().collect();
    for i in 0..=t.len() {
        judge_text(&t[..i].iter().collect::<String>())?;
        for ch in &alphabet {
            let mut x = t.clone();
            x.insert(i, *ch);
            judge_text(&x.iter().collect::<String>())?;
            if i < t.len() {
                let mut x = t.clone();
                x[i] = *ch;
                judge_text(&x.iter().collect::<String>())?;
            }
        }
        if i < t.len() {
            let mut x = t.clone();
            x.remove(i);
            judge_text(&x.iter().collect::<String>())?;
        }
    }
    Ok(())
}

/// The peer component takes exactly the peer ids.
fn peer_component() -> R<()> {
    let id = ids()[choose(3, "id")].clone();
    let a = choose(256, "first") as u8;
    let judge = |d: Vec<u8>| -> R<()> {
        tick_steps(1);
        let ok = d.len() == 34 && d[0] == 0x12 && d[1] == 32;
        let mut raw = vec![0xa5, 3, d.len() as u8];
        raw.extend_from_slice(&d);
        let text = format!("/p2p/{}", bs58::encode(&d).into_string());
        if Multiaddr::try_from(raw).is_ok() != ok || text.parse::<Multiaddr>().is_ok() != ok {
            return bad("peer", format!("{:02x?} as peer id, valid {}", d, ok));
        }
        Ok(())
    };
    for b in 0..=255u8 {
        for pre in [vec![a, b], vec![0x92, a, b]].iter() {
            for skip in 1..3 {
                let mut d = pre.clone();
                d.extend_from_slice(&id[skip..]);
                judge(d)?;
            }
        }
    }
    let mut d = id.clone();
    d.push(a);
    judge(d)?;
    let mut d = id;
    d.truncate(a as usize);
    judge(d)
}

/// All sequences of text tokens.
fn tokens(depth: usize) -> R<()> {
    let toks = ["", "ip4", "ip6", "tcp", "dns4", "dns6", "tls", "p2p", "ws", "wss", "127.0.0.1", "::1", "80", "65536", "-1", "x",
        "QmNQ4jky6uVqLDrPU7snqxARuNGWNLgSrTnssbRuy3ij2W", "IP4", "udp"];
    let n = choose(depth + 1, "tokens");
    let lead = choose(2, "leading slash") == 0;
    let v: Vec<&str> = (0..n).map(|_| toks[choose(toks.len(), "token")]).collect();
    let t = format!("{}{}", if lead { "/" } else { "" }, v.join("/"));
    judge_text(&t)
}

pub fn a01(thorough: bool) -> Vec<Scenario> {
    let depth = if thorough { 3 } else { 2 };
    vec![
        Scenario::new("built", 0, 900, "all sequences of up to two (thorough: three) of 52 boundary components: bytes, text, serde, iteration, push, pop, replace", move || built(depth)),
        Scenario::new("near-bytes", 0, 900, "all byte edits of the encodings of one and two components", near_bytes),
        Scenario::new("peer-component", 0, 300, "all two-byte prefixes, truncations and extensions of the peer id in bytes and text", peer_component),
        Scenario::new("short-bytes", 0, 300, "all byte strings of up to three bytes", short_bytes),
        Scenario::new("near-text", 0, 900, "all one-character edits of the texts of one and two components", near_text),
        Scenario::new("tokens", 0, 900, "all sequences of up to three (thorough: four) of 19 text tokens", move || tokens(if thorough { 4 } else { 3 })),
    ]
}
