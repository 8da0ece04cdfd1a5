//! The encrypted channel (S03) and its ciphers (S04).
use std::pin::Pin;

use bytes::BytesMut;
use mc_engine::exec;
use mc_engine::pipe::{duplex, End, PipeCfg};
use mc_engine::{bad, choose, choose_in, log, outcome, tick_steps, Scenario, R};
use tentacle_secio::{
    codec::secure_stream::SecureStream,
    crypto::{cipher::CipherType, new_stream, BoxStreamCipher, CryptoMode},
    verif::{ring_stream, secure_stream},
};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWriteExt};
use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed};

use crate::refpeer::{RefCipher, CIPHERS};
use crate::shake::CT;

fn opts(sched: bool) -> exec::Opts {
    exec::Opts {
        sched,
        ..Default::default()
    }
}

fn stream(imp: usize, t: CipherType, key: &[u8], mode: CryptoMode) -> BoxStreamCipher {
    if imp == 0 {
        new_stream(t, key, mode)
    } else {
        ring_stream(t, key, mode)
    }
}

fn keys(c: usize) -> (Vec<u8>, Vec<u8>) {
    let n = CT[c].key_size();
    ((1..=n as u8).collect(), (101..=100 + n as u8).collect())
}

fn channel(io: End, c: usize, imp: usize, first: bool) -> SecureStream<End> {
    let (k1, k2) = keys(c);
    let (enc, dec) = if first { (k1, k2) } else { (k2, k1) };
    secure_stream(
        Framed::new(io, LengthDelimitedCodec::new()),
        stream(imp, CT[c], &dec, CryptoMode::Decrypt),
        stream(imp, CT[c], &enc, CryptoMode::Encrypt),
    )
}

fn suite() -> (usize, (usize, usize)) {
    let c = choose(3, "cipher");
    let i = choose_in(&[(0, 0), (0, 1), (1, 0)], "implementations");
    (c, i)
}

fn body(tag: u8, msgs: &[usize]) -> Vec<Vec<u8>> {
    let mut n = 0u8;
    msgs.iter()
        .map(|l| {
            (0..*l)
                .map(|_| {
                    n = n.wrapping_add(1);
                    n.wrapping_mul(7) ^ tag
                })
                .collect()
        })
        .collect()
}

fn spawn_writer(name: &str, mut s: tokio::io::WriteHalf<SecureStream<End>>, msgs: Vec<Vec<u8>>, flush_each: bool) -> exec::Handle<Result<(), String>> {
    exec::spawn(name.to_string(), async move {
        for m in msgs {
            let mut off = 0;
            loop {
                let n = s.write(&m[off..]).await.map_err(|e| e.to_string())?;
                off += n;
                if off >= m.len() {
                    break;
                }
                if n == 0 {
                    return Err("write returned zero".to_string());
                }
            }
            if flush_each {
                s.flush().await.map_err(|e| e.to_string())?;
            }
        }
        s.shutdown().await.map_err(|e| e.to_string())
    })
}

/// Read with a cyclic pattern of buffer sizes; a zero means one poll with an empty buffer.
fn spawn_reader<S: AsyncRead + Unpin + 'static>(name: &str, mut s: S, pattern: Vec<usize>) -> exec::Handle<(Vec<u8>, String)> {
    exec::spawn(name.to_string(), async move {
        let mut got = vec![];
        let mut i = 0;
        loop {
            let n = pattern[i % pattern.len()];
            i += 1;
            let mut b = vec![0xee; n];
            if n == 0 {
                // may find nothing, must not lose anything
                let r = futures::future::poll_fn(|cx| std::task::Poll::Ready(Pin::new(&mut s).poll_read(cx, &mut b))).await;
                if let std::task::Poll::Ready(Err(e)) = r {
                    return (got, e.to_string());
                }
                continue;
            }
            match s.read(&mut b).await {
                Ok(0) => return (got, "eof".to_string()),
                Ok(m) => got.extend_from_slice(&b[..m]),
                Err(e) => return (got, e.to_string()),
            }
        }
    })
}

fn transfer(msgs_a: &[usize], msgs_b: &[usize], pattern: Vec<usize>, p: PipeCfg, flush_each: bool) -> R<()> {
    let (c, (ia, ib)) = suite();
    exec::reset(None);
    let (a, b, _ab, _ba) = duplex(p);
    let (ra, wa) = tokio::io::split(channel(a, c, ia, true));
    let (rb, wb) = tokio::io::split(channel(b, c, ib, false));
    let (ma, mb) = (body(0, msgs_a), body(0x55, msgs_b));
    let x = spawn_writer("write-a", wa, ma.clone(), flush_each);
    let y = spawn_writer("write-b", wb, mb.clone(), flush_each);
    let rb = spawn_reader("read-b", rb, pattern.clone());
    let ra = spawn_reader("read-a", ra, pattern);
    exec::run(opts(p.frag));
    for (n, w) in [("a", x), ("b", y)].iter() {
        match w.take() {
            Some(Ok(())) => {}
            r => return bad("write", format!("writer {}: {:?}", n, r)),
        }
    }
    for (n, r, m) in [("b", rb, ma), ("a", ra, mb)].iter() {
        let want: Vec<u8> = m.concat();
        match r.take() {
            Some((got, e)) => {
                log(|| format!("   reader {} got {} bytes then {}", n, got.len(), e));
                if got != want {
                    return bad("content", format!("reader {} got {} bytes (then {}), written {}: {}", n, got.len(), e, want.len(),
                        if want.starts_with(&got) { "short" } else { "not a prefix" }));
                }
            }
            None => return bad("stall", format!("reader {} waits for ever", n)),
        }
    }
    outcome(&[c as u8, ia as u8, ib as u8]);
    Ok(())
}

fn sizes() -> R<()> {
    let menu = [0usize, 1, 2, 16, 40];
    let n = choose(3, "messages") + 1;
    let msgs: Vec<usize> = (0..n).map(|_| choose_in(&menu, "length")).collect();
    let pats: Vec<Vec<usize>> = vec![
        vec![1], vec![2], vec![3, 1], vec![16], vec![64], vec![1, 64], vec![64, 1], vec![2, 0], vec![0, 1], vec![17, 0, 3], vec![0, 64],
    ];
    let p = choose_in(&pats, "read sizes");
    transfer(&msgs, &[3], p, PipeCfg::default(), choose(2, "flush each") == 1)
}

fn frag() -> R<()> {
    let msgs = choose_in(&[vec![5usize, 0, 20], vec![1], vec![33, 2]], "messages");
    let p = choose_in(&[vec![64usize], vec![3], vec![7, 0]], "read sizes");
    let (cap, max) = choose_in(&[(1usize << 20, usize::MAX), (1 << 20, 1), (1, 1), (9, 4)], "transport");
    let cfg = PipeCfg {
        cap,
        frag: max != 1,
        max_read: max,
        max_write: max,
    };
    transfer(&msgs, &[4, 9], p, cfg, false)
}

fn large() -> R<()> {
    let msgs = choose_in(&[vec![5000usize, 9000, 1], vec![70_000], vec![8192, 8192, 8192], vec![8164, 8163, 8165, 100]], "messages");
    let p = choose_in(&[vec![4096usize], vec![100_000], vec![10_000, 1]], "read sizes");
    let cap = choose_in(&[1usize << 20, 4096, 100], "transport");
    let cfg = PipeCfg { cap, ..Default::default() };
    transfer(&msgs, &[20_000, 3], p, cfg, choose(2, "flush each") == 1)
}

/// Everything written before a flush that completed arrives, though the writer does nothing
/// more with its end.
fn flushed() -> R<()> {
    let (c, (ia, ib)) = suite();
    exec::reset(None);
    let cap = choose_in(&[1usize << 20, 4096, 100, 9, 1], "transport");
    let msgs = choose_in(&[vec![1usize], vec![40, 2], vec![300, 300], vec![9000]], "messages");
    let (a, b, _ab, _ba) = duplex(PipeCfg { cap, ..Default::default() });
    let mut wa = channel(a, c, ia, true);
    let mut rb = channel(b, c, ib, false);
    let m = body(0, &msgs);
    let want = m.concat();
    let n = want.len();
    let w = exec::spawn("write".to_string(), async move {
        for x in &m {
            wa.write_all(x).await.map_err(|e| e.to_string())?;
        }
        wa.flush().await.map_err(|e| e.to_string())?;
        // keep it open
        Ok::<_, String>(wa)
    });
    let r = exec::spawn("read".to_string(), async move {
        let mut got = vec![0; n];
        rb.read_exact(&mut got).await.map(|_| got).map_err(|e| e.to_string())
    });
    exec::run(opts(false));
    let _open = match w.take() {
        Some(Ok(w)) => w,
        x => return bad("write", format!("writer: {:?}", x.map(|x| x.err()))),
    };
    match r.take() {
        Some(Ok(got)) if got == want => Ok(()),
        Some(x) => bad("content", format!("got {:?}", x.map(|x| x.len()))),
        None => bad("flush", "what was flushed never arrives"),
    }
}

// ---- attacks on an established channel

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Flip,
    Cut,
    Insert,
    Delete,
    Drop,
    Dup,
    Swap,
    Earlier,
    Reflect,
    Forge,
    Append,
}

fn attack(masks: &[u8], msgs: &[usize]) -> R<()> {
    let (c, (ia, ib)) = suite();
    exec::reset(None);
    // produce the genuine ciphertext of both directions
    let collect = |first: bool, imp: usize, m: Vec<Vec<u8>>| -> Vec<Vec<u8>> {
        exec::reset(None);
        let (a, _b, ab, _ba) = duplex(PipeCfg::default());
        let (_r, w) = tokio::io::split(channel(a, c, imp, first));
        spawn_writer("writer", w, m, true);
        exec::run(opts(false));
        let mut raw: Vec<u8> = ab.lock().unwrap().buf.drain(..).collect();
        let mut out = vec![];
        while raw.len() >= 4 {
            let n = u32::from_be_bytes([raw[0], raw[1], raw[2], raw[3]]) as usize + 4;
            out.push(raw.drain(..n).collect());
        }
        out
    };
    let plain = body(0, msgs);
    let good = collect(true, ia, plain.clone());
    let other = collect(false, ib, body(0x33, msgs));
    if good.len() != plain.len() {
        return bad("framing", format!("{} writes gave {} messages", plain.len(), good.len()));
    }
    let at = choose(good.len(), "message");
    let mut sent = good.clone();
    // index of the first message the reader cannot accept
    let op = choose_in(&[Op::Flip, Op::Cut, Op::Insert, Op::Delete, Op::Drop, Op::Dup, Op::Swap, Op::Earlier, Op::Reflect, Op::Forge, Op::Append], "attack");
    let mut limit = at;
    let reframe = |m: &[u8]| {
        let mut r = (m.len() as u32).to_be_bytes().to_vec();
        r.extend_from_slice(m);
        r
    };
    match op {
        Op::Flip => {
            let i = choose(sent[at].len(), "offset");
            sent[at][i] ^= choose_in(masks, "mask");
        }
        Op::Cut => {
            let i = choose(sent[at].len(), "cut at");
            sent.truncate(at + 1);
            sent[at].truncate(i);
        }
        Op::Insert => {
            let mut m = sent[at][4..].to_vec();
            let i = choose(m.len() + 1, "offset");
            m.insert(i, 0);
            sent[at] = reframe(&m);
        }
        Op::Delete => {
            let mut m = sent[at][4..].to_vec();
            let i = choose(m.len(), "offset");
            m.remove(i);
            sent[at] = reframe(&m);
        }
        Op::Drop => {
            sent.remove(at);
        }
        Op::Dup => {
            let m = sent[at].clone();
            sent.insert(at, m);
            limit = at + 1;
        }
        Op::Swap => {
            if at + 1 == sent.len() {
                return Ok(());
            }
            sent.swap(at, at + 1);
        }
        Op::Earlier => {
            let j = choose(sent.len(), "replayed message");
            if j == at {
                return Ok(());
            }
            sent[at] = good[j].clone();
        }
        Op::Reflect => sent[at] = other[at].clone(),
        Op::Forge => {
            let l = choose_in(&[0usize, 1, 15, 16, 17, 32], "length");
            sent[at] = reframe(&vec![choose_in(&[0u8, 0xff], "fill"); l]);
        }
        Op::Append => {
            let l = choose_in(&[1usize, 16, 20], "length");
            let mut m = sent[at][4..].to_vec();
            m.extend(vec![0; l]);
            sent[at] = reframe(&m);
        }
    }
    exec::reset(None);
    let (a, b, ab, _ba) = duplex(PipeCfg::default());
    let pat = choose_in(&[vec![3usize], vec![64]], "read sizes");
    let r = spawn_reader("reader", channel(b, c, ib, false), pat);
    ab.lock().unwrap().inject(&sent.concat());
    ab.lock().unwrap().eof = true;
    ab.lock().unwrap().wake_all();
    exec::run(opts(false));
    drop(a);
    let allowed: Vec<u8> = plain[..limit].concat();
    match r.take() {
        None => bad("stall", format!("{:?} at {}: the reader waits for ever", op, at)),
        Some((got, e)) => {
            outcome(format!("{:?} {}", op, e).as_bytes());
            if !allowed.starts_with(&got) {
                return bad("accepted", format!("{:?} at message {}: {} bytes delivered, genuine prefix is {}", op, at, got.len(), allowed.len()));
            }
            if got.len() < allowed.len() {
                return bad("lost", format!("{:?} at message {}: only {} of {} genuine bytes before the error {}", op, at, got.len(), allowed.len(), e));
            }
            if e == "eof" {
                return bad("silent", format!("{:?} at message {}: clean end of stream instead of an error", op, at));
            }
            Ok(())
        }
    }
}

pub fn s03(thorough: bool) -> Vec<Scenario> {
    let masks: Vec<u8> = if thorough { (1..=255).collect() } else { vec![1, 0x80, 0xff] };
    vec![
        Scenario::new("sizes", 0, 600, "one to three writes of {0,1,2,16,40} bytes read with eleven buffer size patterns (some empty), three ciphers, implementations mixed", sizes),
        Scenario::new("fragments", if thorough { 2 } else { 1 }, 1200, "both directions at once over byte-wise, tiny and fragmented transports", frag),
        Scenario::new("large", 0, 300, "messages around and above the 8 KB buffer boundary over small transports", large),
        Scenario::new("flushed", 0, 300, "one or two writes and a flush over transports of five sizes, then nothing more", flushed),
        Scenario::new("attack", 0, 1800, "every byte change, cut, insertion, deletion, drop, duplication, swap, replay, reflection, forgery and extension of each of three messages",
            move || attack(&masks, &[5, 0, 17])),
    ]
}

// ---------------------------------------------------------------- S04

const LENS: [usize; 12] = [0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 255, 1000];

fn open(c: &mut BoxStreamCipher, d: &[u8], in_place: bool) -> Result<Vec<u8>, String> {
    if in_place && c.is_in_place() {
        let mut b = BytesMut::from(d);
        c.decrypt_in_place(&mut b).map_err(|e| format!("{:?}", e))?;
        Ok(b.to_vec())
    } else {
        c.decrypt(d).map_err(|e| format!("{:?}", e))
    }
}

fn sequences() -> R<()> {
    let c = choose(3, "cipher");
    let imp = choose(2, "sender");
    let dimp = choose(2, "receiver");
    let in_place = choose(2, "in place") == 1;
    let (k, _) = keys(c);
    let mut e = stream(imp, CT[c], &k, CryptoMode::Encrypt);
    let mut d = stream(dimp, CT[c], &k, CryptoMode::Decrypt);
    let mut r = RefCipher::new(CIPHERS[c], &k);
    for _ in 0..4 {
        let l = choose_in(&LENS, "length");
        let m: Vec<u8> = (0..l).map(|i| i as u8 ^ 0x3c).collect();
        let x = match e.encrypt(&m) {
            Ok(x) => x,
            Err(e) => return bad("encrypt", format!("{:?}", e)),
        };
        if x != r.seal(&m) {
            return bad("interop", format!("{} bytes: ciphertext differs from the reference", l));
        }
        match open(&mut d, &x, in_place) {
            Ok(y) if y == m => {}
            y => return bad("inverse", format!("{} bytes decrypt to {:?}", l, y.map(|y| y.len()))),
        }
        tick_steps(1);
    }
    Ok(())
}

/// Long runs over the counter carries.
fn counter(n: u64) -> R<()> {
    let c = choose(3, "cipher");
    let imp = choose(2, "sender");
    let dimp = choose(2, "receiver");
    let (k, _) = keys(c);
    let mut e = stream(imp, CT[c], &k, CryptoMode::Encrypt);
    let mut d = stream(dimp, CT[c], &k, CryptoMode::Decrypt);
    let mut r = RefCipher::new(CIPHERS[c], &k);
    let m = [7u8; 8];
    let mut seen: Vec<u128> = Vec::with_capacity(n as usize);
    for i in 0..n {
        let x = match e.encrypt(&m) {
            Ok(x) => x,
            Err(e) => return bad("encrypt", format!("message {}: {:?}", i + 1, e)),
        };
        let mut b = [0; 16];
        b.copy_from_slice(&x[..16]);
        seen.push(u128::from_le_bytes(b));
        if x != r.seal(&m) {
            return bad("interop", format!("message {} differs from the reference", i + 1));
        }
        match open(&mut d, &x, i % 2 == 0) {
            Ok(y) if y == m => {}
            y => return bad("inverse", format!("message {} decrypts to {:?}", i + 1, y)),
        }
        if i % 64 == 0 {
            tick_steps(64);
        }
    }
    seen.sort_unstable();
    if seen.windows(2).any(|w| w[0] == w[1]) {
        return bad("nonce-reuse", format!("two of {} encryptions of the same text are equal", n));
    }
    outcome(&[c as u8, imp as u8, dimp as u8]);
    Ok(())
}

/// Only the next message of the same direction decrypts.
fn refuse() -> R<()> {
    let c = choose(3, "cipher");
    let imp = choose(2, "sender");
    let dimp = choose(2, "receiver");
    let in_place = choose(2, "in place") == 1;
    let (k1, k2) = keys(c);
    let mut e = stream(imp, CT[c], &k1, CryptoMode::Encrypt);
    let mut f = stream(imp, CT[c], &k2, CryptoMode::Encrypt);
    let own: Vec<Vec<u8>> = (0..6).map(|i| e.encrypt(&vec![1; i * 5]).unwrap()).collect();
    let other: Vec<Vec<u8>> = (0..6).map(|i| f.encrypt(&vec![1; i * 5]).unwrap()).collect();
    let at = choose(6, "position");
    let mut d = stream(dimp, CT[c], &k1, CryptoMode::Decrypt);
    for x in &own[..at] {
        if let Err(e) = open(&mut d, x, in_place) {
            return bad("inverse", e);
        }
    }
    let mut cands: Vec<(String, Vec<u8>)> = vec![];
    for j in 0..6 {
        if j != at {
            cands.push((format!("message {}", j), own[j].clone()));
        }
        cands.push((format!("other key {}", j), other[j].clone()));
    }
    for l in 0..own[at].len() {
        cands.push((format!("cut to {}", l), own[at][..l].to_vec()));
    }
    for l in 0..17 {
        cands.push((format!("zeros {}", l), vec![0; l]));
    }
    for i in 0..own[at].len() {
        let mut x = own[at].clone();
        x[i] ^= 1;
        cands.push((format!("flip {}", i), x));
    }
    let i = choose(cands.len(), "candidate");
    match open(&mut d, &cands[i].1, in_place) {
        Ok(_) => bad("accepted", format!("at position {}: {}", at, cands[i].0)),
        Err(_) => Ok(()),
    }
}

pub fn s04(thorough: bool) -> Vec<Scenario> {
    let n = if thorough { (1 << 24) + 300 } else { 70_000 };
    vec![
        Scenario::new("sequences", 0, 600, "all sequences of four lengths from a boundary set of twelve, both implementations on both sides, against a reference", sequences),
        Scenario::new("counter", 0, 3600, "a run of 70 000 (thorough: 2^24+300) messages: every ciphertext equals the reference, none repeats", move || counter(n)),
        Scenario::new("refuse", 0, 300, "at each of six positions: all other messages, other keys, cuts, byte changes are refused", refuse),
    ]
}
