//! Handshake agreement (S01) and authenticity (S02).
use std::cell::RefCell;
use std::rc::Rc;

use mc_engine::exec;
use mc_engine::pipe::{duplex, DirRef, End, PipeCfg};
use mc_engine::{bad, choose, choose_in, log, outcome, Scenario, R};
use secp256k1::SecretKey;
use tentacle_secio::{
    codec::secure_stream::SecureStream, crypto::cipher::CipherType, handshake::Config,
    verif::KeyAgreement, Digest, PublicKey, SecioKeyPair,
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

use crate::refpeer::{self, Attack, RefCfg, RefSession, AGREEMENTS, CIPHERS, HASHES};

pub fn raw_key(i: u8) -> [u8; 32] {
    let mut k = [i + 1; 32];
    k[0] = 1;
    k
}

pub fn key(i: u8) -> SecioKeyPair {
    SecioKeyPair::secp256k1_raw_key(raw_key(i)).unwrap()
}

fn setup() {
    exec::reset(None);
}

fn opts(sched: bool) -> exec::Opts {
    exec::Opts {
        sched,
        ..Default::default()
    }
}

type Shake = Result<(SecureStream<End>, PublicKey, Vec<u8>), String>;

fn real(name: &str, cfg: Config, io: End) -> exec::Handle<Shake> {
    let n = name.to_string();
    exec::spawn(name.to_string(), async move {
        let r = cfg.handshake(io).await.map_err(|e| format!("{:?}", e));
        log(|| format!("   {} handshake: {:?}", n, r.as_ref().map(|x| &x.1)));
        r
    })
}

fn lists(all: &[&'static str]) -> Vec<Vec<usize>> {
    // every ordered non-empty subset
    let n = all.len();
    let mut out: Vec<Vec<usize>> = Vec::new();
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for c in &cur {
            for i in 0..n {
                if !c.contains(&i) {
                    let mut d = c.clone();
                    d.push(i);
                    next.push(d);
                }
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}

fn text(all: &[&str], l: &[usize]) -> String {
    l.iter().map(|i| all[*i]).collect::<Vec<_>>().join(",")
}

const KA: [KeyAgreement; 3] = [KeyAgreement::EcdhP256, KeyAgreement::EcdhP384, KeyAgreement::X25519];
pub const CT: [CipherType; 3] = [CipherType::Aes128Gcm, CipherType::Aes256Gcm, CipherType::ChaCha20Poly1305];
const DG: [Digest; 2] = [Digest::Sha256, Digest::Sha512];

fn pick<T: Copy>(all: &[T], l: &[usize]) -> Vec<T> {
    l.iter().map(|i| all[*i]).collect()
}

fn cfg(k: SecioKeyPair, a: Option<&[usize]>, c: Option<&[usize]>, d: Option<&[usize]>) -> Config {
    let mut f = Config::new(k);
    if let Some(a) = a {
        f = f.key_agreements(&pick(&KA, a));
    }
    if let Some(c) = c {
        f = f.ciphers(&pick(&CT, c));
    }
    if let Some(d) = d {
        f = f.digests(&pick(&DG, d));
    }
    f
}

fn all(xs: &[&str]) -> String {
    xs.join(",")
}

/// Real end against the reference peer for every pair of preference lists of one kind.
fn configs_ref() -> R<()> {
    setup();
    let dim = choose(3, "kind");
    let names: &[&'static str] = [&AGREEMENTS[..], &CIPHERS[..], &HASHES[..]][dim];
    let ls = lists(names);
    let mine = choose_in(&ls, "real list");
    // the peer may also name things we do not know
    let mut peer_lists: Vec<String> = ls.iter().map(|l| text(names, l)).collect();
    peer_lists.push(format!("FOO,{},{}", names[1], names[0]));
    peer_lists.push(format!("{},{}", names[1].to_lowercase(), names[0]));
    peer_lists.push("".to_string());
    peer_lists.push("FOO,,BAR".to_string());
    let theirs = choose_in(&peer_lists, "peer list");
    let precedence = choose(2, "peer decides") == 1;
    let use_default = mine.len() == names.len() && mine.windows(2).all(|w| w[0] < w[1]);
    let m = Some(&mine[..]);
    let none = None;
    let c = match dim {
        0 => cfg(key(0), m, none, none),
        1 => cfg(key(0), none, m, none),
        _ => cfg(key(0), none, none, m),
    };
    let _ = use_default;
    let rc = RefCfg {
        sk: SecretKey::from_slice(&raw_key(1)).unwrap(),
        agreements: if dim == 0 { theirs.clone() } else { all(&AGREEMENTS) },
        ciphers: if dim == 1 { theirs.clone() } else { all(&CIPHERS) },
        hashes: if dim == 2 { theirs.clone() } else { all(&HASHES) },
        precedence: Some(precedence),
        attack: Attack::None,
    };
    let (a, b, ab, ba) = duplex(PipeCfg::default());
    let h = real("real", c, a);
    let rp = spawn_ref(rc, b);
    exec::run(opts(false));
    eof(&ab, &ba);
    exec::run(opts(false));
    let common = names.iter().any(|n| {
        mine.iter().any(|i| names[*i] == *n) && theirs.split(',').any(|y| y == *n)
    });
    let (r, p) = (h.take(), rp.borrow_mut().take());
    match (common, r, p) {
        (true, Some(Ok((s, k, epk))), Some(Ok((ps, io)))) => {
            check_pair(s, k, epk, ps, io, &ab, &ba)?;
            outcome(format!("{} {:?}", dim, precedence).as_bytes());
            Ok(())
        }
        (false, Some(Err(_)), Some(Err(_))) => Ok(()),
        (c, r, p) => bad(
            "agreement",
            format!(
                "{:?} vs {:?}, common {}: real {:?}, peer {:?}",
                text(names, &mine), theirs, c, r.map(|x| x.map(|y| y.1)), p.map(|x| x.map(|_| ()))
            ),
        ),
    }
}

type RefOut = Rc<RefCell<Option<Result<(RefSession, End), &'static str>>>>;

fn spawn_ref(rc: RefCfg, mut io: End) -> RefOut {
    let cell: RefOut = Default::default();
    let c2 = cell.clone();
    exec::spawn("peer", async move {
        let r = refpeer::handshake(&mut io, &rc).await;
        log(|| format!("   peer handshake: {:?}", r.as_ref().map(|_| ())));
        *c2.borrow_mut() = Some(r.map(|s| (s, io)));
    });
    cell
}

fn eof(ab: &DirRef, ba: &DirRef) {
    for d in [ab, ba].iter() {
        let mut d = d.lock().unwrap();
        d.eof = true;
        d.wake_all();
    }
}

/// The two ends hold each other's keys and can exchange data in both directions.
fn check_pair(s: SecureStream<End>, k: PublicKey, epk: Vec<u8>, mut ps: RefSession, mut io: End, ab: &DirRef, ba: &DirRef) -> R<()> {
    if *k.inner_ref() != refpeer::pubkey(&SecretKey::from_slice(&raw_key(1)).unwrap()) {
        return bad("wrong-key", format!("real end reports {:?}", k));
    }
    if ps.remote_key != refpeer::pubkey(&SecretKey::from_slice(&raw_key(0)).unwrap()) {
        return bad("wrong-key", "peer got the wrong key".to_string());
    }
    let want = match &ps.agreement[..] {
        "P-256" => 65,
        "P-384" => 97,
        _ => 32,
    };
    if epk.len() != want {
        return bad("ephemeral-key", format!("{} bytes for {}", epk.len(), ps.agreement));
    }
    for d in [ab, ba].iter() {
        d.lock().unwrap().eof = false;
    }
    let h = exec::spawn("real-data", async move {
        let mut s = s;
        for i in 0..3u8 {
            s.write_all(&vec![i; 5 + i as usize]).await.map_err(|e| format!("{:?}", e))?;
        }
        s.flush().await.map_err(|e| format!("{:?}", e))?;
        let mut b = vec![0; 9];
        s.read_exact(&mut b).await.map_err(|e| format!("{:?}", e))?;
        Ok::<_, String>(b)
    });
    let p = exec::spawn("peer-data", async move {
        for m in [&b"abcd"[..], &b"efghi"[..]].iter() {
            let x = ps.enc.seal(m);
            refpeer::send(&mut io, &x).await.ok_or("send")?;
        }
        let mut got = vec![];
        while got.len() < 18 {
            let m = refpeer::recv(&mut io).await.ok_or("recv")?;
            got.extend(ps.dec.open(&m).ok_or("open")?);
        }
        Ok::<_, &'static str>(got)
    });
    exec::run(opts(false));
    let want: Vec<u8> = (0..3u8).flat_map(|i| vec![i; 5 + i as usize]).collect();
    match (h.take(), p.take()) {
        (Some(Ok(a)), Some(Ok(b))) if a == b"abcdefghi" && b == want => Ok(()),
        (a, b) => bad("no-data", format!("after the handshake: real {:?}, peer {:?}", a, b)),
    }
}

/// Two real ends, cross product of single choices and defaults, data both ways.
fn configs_real() -> R<()> {
    setup();
    let side = |n: &str| {
        let a = choose(4, &format!("{} agreement", n));
        let c = choose(4, &format!("{} cipher", n));
        let d = choose(3, &format!("{} digest", n));
        (a, c, d)
    };
    let x = side("a");
    let y = side("b");
    let mk = |k: u8, (a, c, d): (usize, usize, usize)| {
        let one = |i: usize, n: usize| if i == n { None } else { Some(vec![i]) };
        let (a, c, d) = (one(a, 3), one(c, 3), one(d, 2));
        cfg(key(k), a.as_deref(), c.as_deref(), d.as_deref())
    };
    let common = (x.0 == 3 || y.0 == 3 || x.0 == y.0)
        && (x.1 == 3 || y.1 == 3 || x.1 == y.1)
        && (x.2 == 2 || y.2 == 2 || x.2 == y.2);
    // mismatches are all alike: keep those that differ in exactly one kind
    let diff = (x.0 != 3 && y.0 != 3 && x.0 != y.0) as u8
        + (x.1 != 3 && y.1 != 3 && x.1 != y.1) as u8
        + (x.2 != 2 && y.2 != 2 && x.2 != y.2) as u8;
    if diff > 1 {
        return Ok(());
    }
    run_real(mk(0, x), mk(1, y), common, PipeCfg::default())
}

fn run_real(ca: Config, cb: Config, common: bool, p: PipeCfg) -> R<()> {
    let (a, b, ab, ba) = duplex(p);
    let ha = real("a", ca, a);
    let hb = real("b", cb, b);
    let end = exec::run(opts(p.frag));
    if end != exec::End::Idle {
        return bad("livelock", "the handshake does not come to rest");
    }
    if !common {
        // a failed end drops its transport, so both must be done
        return match (ha.take(), hb.take()) {
            (Some(Err(_)), Some(Err(_))) => Ok(()),
            (x, y) => bad("agreement", format!("nothing in common: a {:?}, b {:?}", x.map(|r| r.map(|x| x.1)), y.map(|r| r.map(|x| x.1)))),
        };
    }
    let (ra, rb) = (ha.take(), hb.take());
    let (sa, ka, _) = match ra {
        Some(Ok(x)) => x,
        x => return bad("agreement", format!("a: {:?}", x.map(|r| r.map(|x| x.1)))),
    };
    let (sb, kb, _) = match rb {
        Some(Ok(x)) => x,
        x => return bad("agreement", format!("b: {:?}", x.map(|r| r.map(|x| x.1)))),
    };
    if ka != key(1).public_key() || kb != key(0).public_key() {
        return bad("wrong-key", format!("a has {:?}, b has {:?}", ka, kb));
    }
    let talk = |name: &str, mut s: SecureStream<End>, out: &'static [u8], n: usize| {
        exec::spawn(name.to_string(), async move {
            s.write_all(out).await.map_err(|e| e.to_string())?;
            s.flush().await.map_err(|e| e.to_string())?;
            let mut v = vec![0; n];
            s.read_exact(&mut v).await.map_err(|e| e.to_string())?;
            Ok::<_, String>((v, s))
        })
    };
    let ta = talk("talk-a", sa, b"from a", 10);
    let tb = talk("talk-b", sb, b"and from b", 6);
    exec::run(opts(p.frag));
    let _ = (ab, ba);
    match (ta.take(), tb.take()) {
        (Some(Ok((x, _))), Some(Ok((y, _)))) if x == b"and from b" && y == b"from a" => Ok(()),
        (x, y) => bad("no-data", format!("a read {:?}, b read {:?}", x.map(|r| r.map(|x| x.0)), y.map(|r| r.map(|x| x.0)))),
    }
}

fn fragmentation() -> R<()> {
    setup();
    let (cap, max) = choose_in(&[(1 << 20, usize::MAX), (1 << 20, 1), (512, 1), (512, 7), (512, 64)], "transport");
    let p = PipeCfg {
        cap,
        frag: max == usize::MAX || max == 64,
        max_read: max,
        max_write: max,
    };
    run_real(Config::new(key(0)), Config::new(key(1)), true, p)
}

pub fn s01(thorough: bool) -> Vec<Scenario> {
    vec![
        Scenario::new("configs-reference", 0, 600,
            "real end against an independent peer: all pairs of ordered subsets of each kind of algorithm (and lists with unknown, empty and misspelt names), both precedences, then data both ways", configs_ref),
        Scenario::new("configs-real", 0, 600,
            "two real ends: cross product of {each single choice, default} for the three kinds on both sides, then data both ways", configs_real),
        Scenario::new("fragmentation", if thorough { 3 } else { 2 }, 900,
            "two real ends over byte-wise, small (512 byte) and fragmented transports, all schedules and short reads/writes up to the deviation bound", fragmentation),
    ]
}

// ---------------------------------------------------------------- S02

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mitm {
    Pass,
    Flip,
    Cut,
    Drop,
    Dup,
    Swap,
    Insert,
    Delete,
}

struct Relay {
    /// what the sender sent / what was forwarded
    sent: Vec<u8>,
    fwd: Vec<u8>,
}

/// Forward messages from one end to the other, attacking message `at` (or none).
fn relay(name: &'static str, mut from: End, to: DirRef, at: Option<usize>, op: Mitm, masks: Rc<Vec<u8>>, old: Option<Vec<Option<Vec<u8>>>>, rec: Rc<RefCell<Vec<Vec<u8>>>>) -> Rc<RefCell<Relay>> {
    let st = Rc::new(RefCell::new(Relay { sent: vec![], fwd: vec![] }));
    let s2 = st.clone();
    exec::spawn_daemon(name, async move {
        let mut idx = 0;
        let mut held: Option<Vec<u8>> = None;
        loop {
            let m = match refpeer::recv(&mut from).await {
                Some(m) => m,
                None => break,
            };
            let mut raw = (m.len() as u32).to_be_bytes().to_vec();
            raw.extend_from_slice(&m);
            rec.borrow_mut().push(raw.clone());
            let mut s = s2.borrow_mut();
            s.sent.extend_from_slice(&raw);
            let mut out: Vec<Vec<u8>> = vec![];
            let mut stop = false;
            if let Some(o) = old.as_ref().and_then(|o| o.get(idx).cloned().flatten()) {
                out.push(o);
            } else if Some(idx) == at {
                match op {
                    Mitm::Pass => out.push(raw),
                    Mitm::Flip => {
                        let i = choose(raw.len(), "offset");
                        let m = choose_in(&masks, "mask");
                        raw[i] ^= m;
                        out.push(raw);
                    }
                    Mitm::Insert => {
                        let i = choose(m.len() + 1, "offset");
                        let mut m = m.clone();
                        m.insert(i, 0);
                        let mut r = (m.len() as u32).to_be_bytes().to_vec();
                        r.extend(m);
                        out.push(r);
                    }
                    Mitm::Delete => {
                        let i = choose(m.len(), "offset");
                        let mut m = m.clone();
                        m.remove(i);
                        let mut r = (m.len() as u32).to_be_bytes().to_vec();
                        r.extend(m);
                        out.push(r);
                    }
                    Mitm::Cut => {
                        let i = choose(raw.len(), "cut at");
                        raw.truncate(i);
                        out.push(raw);
                        stop = true;
                    }
                    Mitm::Drop => {}
                    Mitm::Dup => {
                        out.push(raw.clone());
                        out.push(raw);
                    }
                    Mitm::Swap => held = Some(raw),
                }
            } else {
                out.push(raw);
                if let Some(h) = held.take() {
                    out.push(h);
                }
            }
            for o in out {
                s.fwd.extend_from_slice(&o);
                to.lock().unwrap().inject(&o);
            }
            idx += 1;
            if stop {
                break;
            }
        }
        let mut d = to.lock().unwrap();
        d.eof = true;
        d.wake_all();
    });
    st
}

struct Middle {
    a: exec::Handle<Shake>,
    b: exec::Handle<Shake>,
    /// towards b, towards a
    to_b: Rc<RefCell<Relay>>,
    to_a: Rc<RefCell<Relay>>,
    rec_a: Rc<RefCell<Vec<Vec<u8>>>>,
    rec_b: Rc<RefCell<Vec<Vec<u8>>>>,
    am: DirRef,
    bm: DirRef,
}

fn middle(ka: u8, kb: u8, attack_a: (Option<usize>, Mitm), attack_b: (Option<usize>, Mitm), masks: &[u8], old: Option<(Vec<Option<Vec<u8>>>, Vec<Option<Vec<u8>>>)>) -> Middle {
    let (a, ma, am, m_to_a) = duplex(PipeCfg::default());
    let (b, mb, bm, m_to_b) = duplex(PipeCfg::default());
    let masks = Rc::new(masks.to_vec());
    let (rec_a, rec_b): (Rc<RefCell<Vec<Vec<u8>>>>, Rc<RefCell<Vec<Vec<u8>>>>) = Default::default();
    let (oa, ob) = match old {
        Some((x, y)) => (Some(x), Some(y)),
        None => (None, None),
    };
    let ha = real("a", Config::new(key(ka)), a);
    let hb = real("b", Config::new(key(kb)), b);
    let to_b = relay("a->b", ma, m_to_b.clone(), attack_a.0, attack_a.1, masks.clone(), oa, rec_a.clone());
    let to_a = relay("b->a", mb, m_to_a.clone(), attack_b.0, attack_b.1, masks, ob, rec_b.clone());
    exec::run(opts(false));
    // the attacker goes away: everybody must come to an end
    for d in [&m_to_a, &m_to_b].iter() {
        let mut d = d.lock().unwrap();
        d.eof = true;
        d.wake_all();
    }
    exec::run(opts(false));
    Middle { a: ha, b: hb, to_b, to_a, rec_a, rec_b, am, bm }
}

/// The messages in these bytes. The second is not signed as it lies on the wire: it counts by
/// its contents where the format has several ways to write the same.
fn meaning(mut d: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    while d.len() >= 4 {
        let n = u32::from_be_bytes([d[0], d[1], d[2], d[3]]) as usize;
        if d.len() - 4 < n {
            break;
        }
        let m = d[4..4 + n].to_vec();
        d = &d[4 + n..];
        match refpeer::untable(&m, 2) {
            Some(f) if v.len() == 1 && cfg!(feature = "flatc") => v.push(f.join(&[0xff; 8][..])),
            _ => v.push(m),
        }
    }
    if !d.is_empty() {
        v.push(d.to_vec());
    }
    v
}

/// An end may succeed only with the true key of the other end, after receiving exactly
/// what that end sent.
fn judge(m: &Middle, ka: u8, kb: u8, expect_ok: bool) -> R<()> {
    let _ = (&m.am, &m.bm);
    for (name, h, peer, relay) in [("a", &m.a, kb, &m.to_a), ("b", &m.b, ka, &m.to_b)].iter() {
        let r = match h.take() {
            None => return bad("hang", format!("end {} still waits after its transport ended", name)),
            Some(r) => r,
        };
        let rl = relay.borrow();
        let intact = meaning(&rl.fwd).starts_with(&meaning(&rl.sent)) && rl.sent.len() > 100;
        outcome(format!("{} {} {}", name, intact, match &r { Ok(_) => "ok".to_string(), Err(e) => e.clone() }).as_bytes());
        match r {
            Ok((_, k, _)) => {
                if k != key(*peer).public_key() {
                    return bad("impersonation", format!("end {} accepted {:?}", name, k));
                }
                if !intact {
                    return bad("tampered-handshake", format!("end {} completed a handshake whose messages were changed on the way", name));
                }
            }
            Err(e) => {
                if expect_ok {
                    return bad("agreement", format!("end {} failed without an attack: {}", name, e));
                }
            }
        }
    }
    Ok(())
}

fn tamper(masks: &[u8]) -> R<()> {
    setup();
    let dir = choose(2, "direction");
    let idx = choose(3, "message");
    let op = choose_in(&[Mitm::Pass, Mitm::Flip, Mitm::Cut, Mitm::Drop, Mitm::Dup, Mitm::Swap, Mitm::Insert, Mitm::Delete], "attack");
    let none = (None, Mitm::Pass);
    let this = (Some(idx), op);
    let (x, y) = if dir == 0 { (this, none) } else { (none, this) };
    let m = middle(0, 1, x, y, masks, None);
    judge(&m, 0, 1, op == Mitm::Pass)
}

/// Replace any subset of the six messages by those of an earlier session between the same ends
/// (or of a session with a third party), or reflect them.
fn replay() -> R<()> {
    setup();
    let none = (None, Mitm::Pass);
    let kind = choose(3, "source");
    let first = middle(0, if kind == 1 { 2 } else { 1 }, none, none, &[1], None);
    let (ra, rb) = (first.rec_a.borrow().clone(), first.rec_b.borrow().clone());
    let subset = choose(64, "subset");
    let pick = |v: &[Vec<u8>], s: usize| -> Vec<Option<Vec<u8>>> {
        (0..3).map(|i| if s >> i & 1 == 1 { v.get(i).cloned() } else { None }).collect()
    };
    if ra.len() < 3 || rb.len() < 3 {
        return bad("agreement", "the recorded session failed".to_string());
    }
    let (xa, xb) = if kind == 2 { (rb, ra) } else { (ra, rb) };
    let old = (pick(&xa, subset & 7), pick(&xb, subset >> 3));
    let m = middle(0, 1, none, none, &[1], Some(old));
    judge(&m, 0, 1, subset == 0)
}

/// Live reflection: the transport returns everything to the sender.
fn reflect() -> R<()> {
    setup();
    let (a, m, am, to_a) = duplex(PipeCfg::default());
    let h = real("a", Config::new(key(0)), a);
    let _m = m;
    for _ in 0..20 {
        exec::run(opts(false));
        let d: Vec<u8> = am.lock().unwrap().buf.drain(..).collect();
        if d.is_empty() {
            break;
        }
        to_a.lock().unwrap().inject(&d);
    }
    to_a.lock().unwrap().eof = true;
    to_a.lock().unwrap().wake_all();
    exec::run(opts(false));
    match h.take() {
        Some(Err(_)) => Ok(()),
        Some(Ok(_)) => bad("self", "handshake with its own reflection succeeded"),
        None => bad("hang", "reflected handshake hangs"),
    }
}

fn same_key() -> R<()> {
    setup();
    let (a, b, _ab, _ba) = duplex(PipeCfg::default());
    let x = real("a", Config::new(key(0)), a);
    let y = real("b", Config::new(key(0)), b);
    exec::run(opts(false));
    match (x.take(), y.take()) {
        (Some(Err(_)), Some(Err(_))) => Ok(()),
        (p, q) => bad("self", format!("connection to the own key: {:?} {:?}", p.map(|r| r.map(|x| x.1)), q.map(|r| r.map(|x| x.1)))),
    }
}

/// A peer that knows the protocol but not the key it claims, or skips a proof.
fn rogue() -> R<()> {
    setup();
    let agreement = choose_in(&AGREEMENTS, "agreement");
    let cipher = choose_in(&CIPHERS, "cipher");
    let victim = refpeer::pubkey(&SecretKey::from_slice(&raw_key(2)).unwrap());
    let own = refpeer::pubkey(&SecretKey::from_slice(&raw_key(0)).unwrap());
    let attacker = refpeer::pubkey(&SecretKey::from_slice(&raw_key(1)).unwrap());
    let mut list = vec![
        Attack::None,
        Attack::ClaimKey(victim),
        Attack::ClaimKey(own),
        Attack::ClaimKey(vec![]),
        Attack::ClaimKey(vec![2; 33]),
        Attack::ClaimKey(vec![0; 33]),
        Attack::ClaimKey(attacker[..32].to_vec()),
        Attack::RawKey(vec![]),
        Attack::RawKey(vec![0; 3]),
        Attack::RawKey(vec![1, 0, 0, 0, 33, 0, 0, 0]),
        Attack::RawKey({
            let mut v = refpeer::encode_pubkey(&attacker);
            v[0] = 1;
            v
        }),
        Attack::SignWrongOrder,
        Attack::SignWithoutEphemeral,
        Attack::SignOtherEphemeral,
        Attack::SignNothing,
        Attack::Signature(vec![]),
        Attack::Signature(vec![0x30, 6, 2, 1, 1, 2, 1, 1]),
        Attack::Signature(vec![0x30, 6, 2, 1, 0, 2, 1, 0]),
        Attack::Ephemeral(vec![]),
        Attack::Ephemeral(vec![0; 32]),
        Attack::Ephemeral(vec![0; 65]),
        Attack::Ephemeral({
            let mut v = vec![0; 65];
            v[0] = 4;
            v
        }),
        Attack::Ephemeral({
            let mut v = vec![0; 97];
            v[0] = 4;
            v
        }),
        Attack::Ephemeral({
            let mut v = vec![0; 32];
            v[0] = 1;
            v
        }),
        Attack::ConfirmOwnNonce,
        Attack::ConfirmPlain,
        Attack::ConfirmRaw(vec![]),
        Attack::ConfirmRaw(vec![0; 15]),
        Attack::ConfirmRaw(vec![0; 16]),
        Attack::ConfirmRaw(vec![0; 32]),
        Attack::NoConfirm,
        Attack::ProposeRaw(vec![]),
        Attack::ProposeRaw(vec![0; 4]),
        Attack::ProposeRaw(vec![0xff; 64]),
        Attack::ExchangeRaw(vec![]),
        Attack::ExchangeRaw(vec![0; 12]),
        Attack::ExchangeRaw(vec![0xff; 64]),
    ];
    for n in 0..16 {
        list.push(Attack::ConfirmPrefix(n));
        list.push(Attack::ConfirmWrong(n));
    }
    let attack = choose_in(&list, "attack");
    let rc = RefCfg {
        sk: SecretKey::from_slice(&raw_key(1)).unwrap(),
        agreements: agreement.to_string(),
        ciphers: cipher.to_string(),
        hashes: all(&HASHES),
        precedence: None,
        attack: attack.clone(),
    };
    let (a, b, ab, ba) = duplex(PipeCfg::default());
    let h = real("real", Config::new(key(0)), a);
    let rp = spawn_ref(rc, b);
    exec::run(opts(false));
    eof(&ab, &ba);
    exec::run(opts(false));
    let p = rp.borrow_mut().take();
    match (h.take(), attack == Attack::None) {
        (None, _) => bad("hang", format!("{:?}: still waiting", attack)),
        (Some(Ok((_, k, _))), false) => bad("forged-handshake", format!("{:?}: completed with key {:?}", attack, k)),
        (Some(Err(e)), true) => bad("agreement", format!("honest peer refused: {}", e)),
        (Some(Ok(_)), true) => match p {
            Some(Ok(_)) => Ok(()),
            _ => bad("agreement", "honest peer failed".to_string()),
        },
        (Some(Err(_)), false) => Ok(()),
    }
}

pub fn s02(thorough: bool) -> Vec<Scenario> {
    let masks: Vec<u8> = if thorough { (1..=255).collect() } else { vec![1, 0x80, 0xff] };
    vec![
        Scenario::new("tamper", 0, 1800,
            "every handshake message in both directions: every byte xor {1,0x80,0xff} (thorough: all 255), every cut, byte insertion and deletion, drop, duplication, swap",
            move || tamper(&masks)),
        Scenario::new("replay", 0, 300, "every subset of the six messages replaced by those of an earlier session, of a session with a third party, or of the opposite direction", replay),
        Scenario::new("rogue", 0, 300, "67 forged or incomplete proofs by a peer that follows the protocol otherwise, for each agreement and cipher", rogue),
        Scenario::new("reflect", 0, 60, "all messages returned to the sender", reflect),
        Scenario::new("same-key", 0, 60, "two ends with the same key", same_key),
    ]
}
