//! Frame codec (Y07) and scripted misbehaving peers (Y08).
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use bytes::{Bytes, BytesMut};
use mc_engine::exec::{self, Event};
use mc_engine::pipe::{duplex, PipeCfg};
use mc_engine::{bad, choose, choose_in, fail, log, outcome, tick_steps, Scenario, R};
use tokio_util::codec::{Decoder, Encoder};
use tokio_yamux::{
    frame::{Flag, Flags, Frame, FrameCodec, GoAwayCode, Type},
    session::Session,
    stream::StreamHandle,
};

use crate::common::*;

// ---------------------------------------------------------------- Y07

fn flags(bits: u16) -> Flags {
    let mut f = Flags::default();
    for (b, x) in [(1, Flag::Syn), (2, Flag::Ack), (4, Flag::Fin), (8, Flag::Rst)].iter() {
        if bits & b != 0 {
            f.add(*x);
        }
    }
    f
}

fn same(f: &Frame, r: &RefFrame) -> bool {
    let ty = match f.ty() {
        Type::Data => 0,
        Type::WindowUpdate => 1,
        Type::Ping => 2,
        Type::GoAway => 3,
    };
    ty == r.ty && f.flags().value() == r.flags && f.stream_id() == r.id && f.length() == r.len
        && f.size() == 12 + r.body.len()
}

fn bodies(f: Frame, r: &RefFrame) -> bool {
    let (_, b) = f.into_parts();
    match b {
        Some(b) => r.ty == 0 && b[..] == r.body[..],
        None => r.ty != 0,
    }
}

const IDS: [u32; 5] = [0, 1, 2, 0x7fff_ffff, 0xffff_ffff];
const LENS: [u32; 10] = [0, 1, 2, 3, 8, 9, 262_144, 262_145, 0x0102_0304, 0xffff_ffff];

/// All frames the library can build, with the bytes the format prescribes.
fn all_frames(max: u32) -> Vec<(Frame, RefFrame)> {
    let mut v = Vec::new();
    for b in 0..16u16 {
        for id in IDS.iter() {
            for n in [0usize, 1, 2, 7, 8].iter() {
                if *n as u32 > max {
                    continue;
                }
                let body: Vec<u8> = (0..*n).map(|i| 200 + i as u8).collect();
                v.push((
                    Frame::new_data(flags(b), *id, Bytes::from(body.clone())),
                    RefFrame::data(b, *id, &body),
                ));
            }
            for l in LENS.iter() {
                v.push((Frame::new_window_update(flags(b), *id, *l), RefFrame::window(b, *id, *l)));
            }
        }
        for l in LENS.iter() {
            v.push((Frame::new_ping(flags(b), *l), RefFrame::ping(b, *l)));
        }
    }
    for (c, l) in [(GoAwayCode::Normal, 0u32), (GoAwayCode::ProtocolError, 1), (GoAwayCode::InternalError, 2)].iter() {
        v.push((Frame::new_go_away(*c), RefFrame::go_away(*l)));
    }
    v
}

/// Feed pieces to the decoder, draining all frames after each piece.
fn feed(codec: &mut FrameCodec, pieces: &[&[u8]]) -> Result<Vec<Frame>, ()> {
    let mut out = Vec::new();
    let mut buf = BytesMut::new();
    for p in pieces {
        buf.extend_from_slice(p);
        loop {
            match codec.decode(&mut buf) {
                Ok(Some(f)) => out.push(f),
                Ok(None) => break,
                Err(_) => return Err(()),
            }
        }
    }
    Ok(out)
}

fn roundtrip(part: usize, parts: usize) -> R<()> {
    let max = choose_in(&[8u32, 262_144], "limit");
    let frames = all_frames(max);
    let mut n = 0;
    for (i, (f, r)) in frames.into_iter().enumerate() {
        if i % parts != part {
            continue;
        }
        let mut enc = FrameCodec::default().max_frame_size(max);
        let mut bytes = BytesMut::new();
        if !same(&f, &r) {
            return bad("frame-fields", format!("{:?} vs {:?}", f, r));
        }
        if enc.encode(f, &mut bytes).is_err() {
            return bad("encode-error", format!("{:?}", r));
        }
        if bytes[..] != r.bytes()[..] {
            return bad("encoding", format!("{:?} encodes to {:?}, expected {:?}", r, bytes, r.bytes()));
        }
        let b = r.bytes();
        // every way to cut it in up to three pieces
        for c1 in 0..=b.len() {
            for c2 in c1..=b.len() {
                n += 1;
                let mut dec = FrameCodec::default().max_frame_size(max);
                match feed(&mut dec, &[&b[..c1], &b[c1..c2], &b[c2..]]) {
                    Ok(mut v) if v.len() == 1 && same(&v[0], &r) => {
                        if !bodies(v.remove(0), &r) {
                            return bad("body", format!("{:?} cut at {},{}", r, c1, c2));
                        }
                    }
                    o => return bad("decode", format!("{:?} cut at {},{} decodes to {:?}", r, c1, c2, o)),
                }
            }
        }
    }
    tick_steps(n);
    outcome(&[part as u8]);
    Ok(())
}

/// Two or three consecutive frames, cut anywhere.
fn sequences() -> R<()> {
    let menu = vec![
        RefFrame::data(0, 1, b"abc"),
        RefFrame::data(SYN, 3, b""),
        RefFrame::data(FIN, 3, b"12345678"),
        RefFrame::window(SYN | ACK, 2, 77),
        RefFrame::ping(SYN, 300_000),
        RefFrame::go_away(0),
    ];
    let n = choose_in(&[2usize, 3], "frames");
    let fs: Vec<RefFrame> = (0..n).map(|_| choose_in(&menu, "frame")).collect();
    let b: Vec<u8> = fs.iter().flat_map(|f| f.bytes()).collect();
    let mut count = 0;
    for c1 in 0..=b.len() {
        for c2 in c1..=b.len() {
            count += 1;
            let mut dec = FrameCodec::default().max_frame_size(8);
            match feed(&mut dec, &[&b[..c1], &b[c1..c2], &b[c2..]]) {
                Ok(v) if v.len() == fs.len() => {
                    for (f, r) in v.into_iter().zip(&fs) {
                        if !same(&f, r) || !bodies(f, r) {
                            return bad("sequence", format!("{:?} cut at {},{}", fs, c1, c2));
                        }
                    }
                }
                o => return bad("sequence", format!("{:?} cut at {},{}: {:?}", fs, c1, c2, o)),
            }
        }
    }
    // byte by byte
    let mut dec = FrameCodec::default().max_frame_size(8);
    let pieces: Vec<&[u8]> = b.chunks(1).collect();
    match feed(&mut dec, &pieces) {
        Ok(v) if v.len() == fs.len() => {}
        o => return bad("sequence", format!("{:?} byte by byte: {:?}", fs, o)),
    }
    tick_steps(count + 1);
    Ok(())
}

/// All headers over boundary values: accepted exactly when well-formed.
fn headers() -> R<()> {
    let version = choose_in(&[0u8, 1, 2, 128, 255], "version");
    let ty = choose(256, "type") as u8;
    let mut n = 0;
    for max in [0u32, 1, 8, 262_144].iter() {
        for fl in [0u16, 1, 2, 4, 8, 15, 16, 0x0100, 0x8000, 0xffff].iter() {
            for id in IDS.iter() {
                for len in [0u32, 1, 2, 7, 8, 9, 255, 256, 262_143, 262_144, 262_145, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff].iter() {
                    n += 1;
                    let mut h = vec![version, ty];
                    h.extend_from_slice(&fl.to_be_bytes());
                    h.extend_from_slice(&id.to_be_bytes());
                    h.extend_from_slice(&len.to_be_bytes());
                    let mut dec = FrameCodec::default().max_frame_size(*max);
                    let mut buf = BytesMut::from(&h[..]);
                    let r = dec.decode(&mut buf);
                    let must_reject = version != 0 || ty > 3 || (ty == 0 && *len > *max);
                    match (must_reject, r) {
                        (true, Err(_)) => {}
                        (true, o) => return bad("malformed-accepted", format!("header {:?} limit {}: {:?}", h, max, o)),
                        (false, Err(e)) => return bad("valid-rejected", format!("header {:?} limit {}: {:?}", h, max, e)),
                        (false, Ok(o)) => {
                            let want = RefFrame { ty, flags: *fl, id: *id, len: *len, body: vec![] };
                            let complete = ty != 0 || *len == 0;
                            match o {
                                Some(f) if complete && same(&f, &want) => {}
                                None if !complete => {
                                    if *len < 1000 {
                                        // the body arrives
                                        buf.extend_from_slice(&vec![9; *len as usize]);
                                        match dec.decode(&mut buf) {
                                            Ok(Some(f)) if f.length() == *len && buf.is_empty() => {}
                                            o => return bad("decode", format!("header {:?} with body: {:?}", h, o)),
                                        }
                                    }
                                }
                                o => return bad("decode", format!("header {:?}: {:?}", h, o)),
                            }
                        }
                    }
                    // a short header decodes to nothing and does not fail
                    for c in 1..12 {
                        let mut dec = FrameCodec::default().max_frame_size(*max);
                        let mut buf = BytesMut::from(&h[..c]);
                        if let Ok(Some(f)) = dec.decode(&mut buf) {
                            return bad("decode", format!("{} header bytes decode to {:?}", c, f));
                        }
                    }
                }
            }
        }
    }
    tick_steps(n);
    outcome(&[version, ty.min(5)]);
    Ok(())
}

pub fn y07(thorough: bool) -> Vec<Scenario> {
    let parts = 64;
    vec![
        Scenario::new("roundtrip", 0, 300,
            "every frame with 16 flag sets, 5 stream ids, boundary lengths and bodies of {0,1,2,7,8} bytes, limits {8, 256K}, cut at every pair of positions",
            move || roundtrip(choose(parts, "part"), parts)),
        Scenario::new("sequences", 0, 300, "all sequences of 2 and 3 frames from 6, cut at every pair of positions", sequences),
        Scenario::new("headers", 0, 300,
            "versions {0,1,2,128,255} x all 256 types x 10 flag words x 5 ids x 14 lengths x 4 limits, and every truncation", headers),
        Scenario::new("bytes", 0, if thorough { 900 } else { 60 },
            "all strings over {0,1,2,3,4,255} of 12 bytes agreeing with a reference decoder in the low positions",
            move || byte_strings(thorough)),
    ]
}

/// All 14-byte strings with free version, type, flag low, id low, length bytes over a small alphabet.
fn byte_strings(thorough: bool) -> R<()> {
    let alpha: &[u8] = if thorough { &[0, 1, 2, 3, 4, 9, 127, 128, 255] } else { &[0, 1, 2, 3, 4, 255] };
    let v = choose_in(alpha, "b0");
    let t = choose_in(alpha, "b1");
    let mut n = 0u64;
    let k = alpha.len();
    // flags low, id high, id low, length byte 0..3, first body bytes
    for x in 0..k.pow(6) {
        let mut y = x;
        let mut d = || {
            let r = alpha[y % k];
            y /= k;
            r
        };
        let (fl, id, l2, l3, b0, l0) = (d(), d(), d(), d(), d(), d());
        let s = [v, t, 0, fl, id, 0, 0, id, l0, 0, l2, l3, b0, b0];
        let mut dec = FrameCodec::default().max_frame_size(600);
        let mut buf = BytesMut::from(&s[..]);
        let mut got = 0;
        loop {
            n += 1;
            match dec.decode(&mut buf) {
                Ok(Some(f)) => {
                    got += 1;
                    if f.ty() == Type::Data && f.length() > 600 {
                        return bad("malformed-accepted", format!("{:?}", s));
                    }
                    if v != 0 || t > 3 {
                        return bad("malformed-accepted", format!("{:?}", s));
                    }
                }
                Ok(None) => break,
                Err(_) => {
                    let len = u32::from_be_bytes([l0, 0, l2, l3]);
                    if v == 0 && t < 4 && !(t == 0 && len > 600) && got == 0 {
                        return bad("valid-rejected", format!("{:?}", s));
                    }
                    break;
                }
            }
        }
    }
    tick_steps(n);
    Ok(())
}

// ---------------------------------------------------------------- Y08

#[derive(Clone, Debug)]
enum Sym {
    F(RefFrame),
    Raw(&'static [u8]),
}

fn alphabet(window: u32) -> Vec<Sym> {
    let w = window as usize;
    let body = |n: usize, seed: u8| -> Vec<u8> { (0..n).map(|i| seed + i as u8).collect() };
    vec![
        Sym::F(RefFrame::window(SYN, 1, 0)),
        Sym::F(RefFrame::data(0, 1, &body(2, 10))),
        Sym::F(RefFrame::window(SYN, 3, 0)),
        Sym::F(RefFrame::data(0, 3, &body(2, 30))),
        Sym::F(RefFrame::data(SYN, 1, &body(1, 50))),
        Sym::F(RefFrame::data(SYN, 3, &body(w, 60))),
        Sym::F(RefFrame::data(0, 1, &body(w, 70))),
        Sym::F(RefFrame::data(0, 1, &body(w + 1, 80))),
        Sym::F(RefFrame::window(FIN, 1, 0)),
        Sym::F(RefFrame::window(RST, 1, 0)),
        Sym::F(RefFrame::data(FIN, 1, &body(1, 90))),
        Sym::F(RefFrame::window(SYN, 5, 0)),
        Sym::F(RefFrame::data(SYN, 5, &body(2, 100))),
        Sym::F(RefFrame::window(0, 1, 3)),
        Sym::F(RefFrame::window(0, 1, 0xffff_ffff)),
        Sym::F(RefFrame::data(0, 9, &body(2, 120))),
        Sym::F(RefFrame::window(ACK, 2, 0)),
        Sym::F(RefFrame::window(SYN, 2, 0)),
        Sym::F(RefFrame::data(0, 2, &body(2, 140))),
        Sym::F(RefFrame::window(RST, 2, 0)),
        Sym::F(RefFrame::window(0xffff, 3, 1)),
        Sym::F(RefFrame::ping(SYN, 42)),
        Sym::F(RefFrame::ping(ACK, 7)),
        Sym::F(RefFrame::ping(0, 7)),
        Sym::F(RefFrame::go_away(0)),
        Sym::F(RefFrame::go_away(77)),
        Sym::F(RefFrame::data(0, 0, &body(1, 160))),
        Sym::Raw(&[1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0]),
        Sym::Raw(&[0, 9, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0]),
        Sym::Raw(&[0, 0, 0, 0, 0, 0, 0, 1, 0xff, 0xff, 0xff, 0xff]),
        Sym::Raw(&[]), // end of stream
    ]
}

/// What the reference says about one stream.
#[derive(Clone, Debug, PartialEq)]
enum St {
    Open,
    /// the peer ended it
    Ended,
    /// ended or errored in a way the reference does not follow further
    Murky,
}

struct App {
    /// per stream id: what the application read, in order, one entry per surfaced stream
    got: RefCell<Vec<(u32, Vec<u8>, bool)>>,
    hold: Event,
}

fn app_stream(app: &Rc<App>, h: StreamHandle) {
    let app = app.clone();
    let id = h.id();
    let slot = {
        let mut g = app.got.borrow_mut();
        g.push((id, vec![], false));
        g.len() - 1
    };
    exec::spawn_daemon(format!("app{}", id), async move {
        app.hold.wait().await;
        let h = Sh::new(h);
        let mut buf = [0u8; 3];
        loop {
            match h.read(&mut buf).await {
                Ok(n) if n > 0 => app.got.borrow_mut()[slot].1.extend_from_slice(&buf[..n]),
                _ => break,
            }
        }
        app.got.borrow_mut()[slot].2 = true;
    });
}

fn hostile(depth: usize, reduced: bool) -> R<()> {
    setup();
    let window = 4u32;
    let hold = choose_in(&[false, true], "application reads late");
    let local_open = choose_in(&[false, true], "locally opened stream");
    let mut cfg = config(window);
    cfg.max_stream_count = 2 + local_open as usize;
    let mut sy = alphabet(window);
    if reduced {
        // the frames that interact most, for longer scripts
        let keep = [0usize, 1, 2, 3, 4, 6, 8, 9, 10, 11, 17];
        sy = keep.iter().map(|i| sy[*i].clone()).collect();
    }
    let (a, b, ab, ba) = duplex(PipeCfg::default());
    let app = Rc::new(App {
        got: RefCell::new(vec![]),
        hold: Event::new(),
    });
    if !hold {
        app.hold.set();
    }
    // frames the session sends
    let wire: Rc<RefCell<Vec<RefFrame>>> = Default::default();
    {
        let seen = std::sync::Arc::new(std::sync::Mutex::new(Vec::<RefFrame>::new()));
        let s2 = seen.clone();
        let mut dec = RefDecoder::default();
        ab.lock().unwrap().tap = Some(Box::new(move |d| {
            for f in dec.push(d) {
                log(|| format!("   session sends {:?}", f));
                s2.lock().unwrap().push(f);
            }
        }));
        let _ = &seen;
        WIRE.with(|w| *w.borrow_mut() = Some(seen));
    }
    let _ = &wire;
    let session = Session::new_server(a, cfg);
    let mut ctl = session.control();
    let app2 = app.clone();
    let end = drive("session", session, move |h| app_stream(&app2, h));
    let mut opts = horizon(0);
    opts.sched = false;
    if local_open {
        let app3 = app.clone();
        exec::spawn("opener", async move {
            match ctl.open_stream().await {
                Ok(h) => app_stream(&app3, h),
                Err(e) => fail("open-failed", format!("{:?}", e)),
            }
        });
    }
    exec::run(opts);
    // reference state
    let mut st: BTreeMap<u32, St> = BTreeMap::new();
    let mut sent: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut surfaced: Vec<u32> = Vec::new(); // ids that may surface, in order
    let mut refused: Vec<u32> = Vec::new();
    let mut must_end = false; // a protocol error was sent by the peer
    let mut may_end = false; // the reference does not decide
    let mut pings = Vec::new();
    if local_open {
        st.insert(2, St::Open);
        surfaced.push(2);
    }
    let granted = |id: u32| -> usize {
        WIRE.with(|w| {
            w.borrow().as_ref().unwrap().lock().unwrap().iter().filter(|f| f.ty == 1 && f.id == id).map(|f| f.len as usize).sum()
        })
    };
    let send = |s: &Sym| {
        let bytes = match s {
            Sym::F(f) => f.bytes(),
            Sym::Raw(r) => r.to_vec(),
        };
        let mut d = ba.lock().unwrap();
        if bytes.is_empty() {
            d.eof = true;
            d.wake_all();
        } else {
            d.inject(&bytes);
        }
    };
    let mut over = false; // the session has been told to end
    for _ in 0..depth {
        let s = choose_in(&sy, "frame");
        log(|| format!("-> {:?}", s));
        send(&s);
        if !over {
            match &s {
                Sym::Raw(r) => {
                    over = true;
                    if r.is_empty() {
                        may_end = true
                    } else {
                        must_end = true
                    }
                }
                Sym::F(f) if f.ty == 2 => {
                    if f.has(SYN) {
                        pings.push(f.len)
                    }
                }
                Sym::F(f) if f.ty == 3 => {
                    over = true;
                    may_end = true;
                }
                Sym::F(f) => {
                    let mut cur = st.get(&f.id).cloned();
                    if f.ty == 0 && f.len > window {
                        must_end = true;
                        over = true;
                    } else {
                        if f.has(SYN) {
                            match cur {
                                Some(St::Open) => {
                                    // already open: protocol error
                                    must_end = true;
                                    over = true;
                                }
                                Some(_) => {
                                    // reuse of an id that was ended: depends on whether our side let go
                                    may_end = true;
                                    st.insert(f.id, St::Murky);
                                    surfaced.push(f.id);
                                }
                                None => {
                                    let live = st.len();
                                    let murky = st.values().any(|s| *s != St::Open);
                                    if live >= cfg.max_stream_count {
                                        if murky {
                                            // an ended stream may or may not count any more
                                            surfaced.push(f.id);
                                            st.insert(f.id, St::Murky);
                                            sent.insert(f.id, vec![]);
                                        } else {
                                            refused.push(f.id);
                                        }
                                    } else {
                                        surfaced.push(f.id);
                                        st.insert(f.id, St::Open);
                                        sent.insert(f.id, vec![]);
                                        if f.ty == 1 && f.len > 0 { /* extra credit for us: fine */ }
                                    }
                                }
                            }
                            cur = st.get(&f.id).cloned();
                        }
                        if !over {
                            if f.ty == 0 {
                                if let Some(x) = &cur {
                                    let v = sent.entry(f.id).or_default();
                                    v.extend_from_slice(&f.body);
                                    if *x == St::Open && v.len() > window as usize + granted(f.id) {
                                        if hold {
                                            // the frame is looked at when the application gets to it,
                                            // and reading may have extended the window by then
                                            may_end = true;
                                        } else {
                                            must_end = true;
                                        }
                                    } else if *x != St::Open && !f.body.is_empty() {
                                        may_end = true;
                                    }
                                }
                            }
                            if f.ty == 1 && f.len == 0xffff_ffff && cur == Some(St::Open) {
                                must_end = true;
                            }
                            if cur.is_some() && f.flags & (FIN | RST) != 0 {
                                if f.flags & !(FIN | RST | ACK) != 0 && cur != Some(St::Open) {
                                    may_end = true;
                                }
                                if cur == Some(St::Ended) {
                                    may_end = true;
                                }
                                st.insert(f.id, if cur == Some(St::Open) { St::Ended } else { St::Murky });
                            }
                        }
                    }
                }
            }
        }
        exec::run(opts);
        if let Some(v) = mc_engine::take_failure() {
            return Err(v);
        }
        if must_end || may_end {
            // later frames need not be looked at
            break;
        }
    }
    // late reader starts now
    app.hold.set();
    exec::run(opts);
    // check what arrived
    let got = app.got.borrow();
    outcome(format!("{:?}", *got).as_bytes());
    // each surfaced stream corresponds to an open, in order; contents are a prefix of what was sent
    let ids: Vec<u32> = got.iter().map(|g| g.0).collect();
    for g in got.iter() {
        if !surfaced.contains(&g.0) {
            return bad("surfaced", format!("stream {} surfaced; opened {:?}, refused {:?}", g.0, surfaced, refused));
        }
        let s = sent.get(&g.0).cloned().unwrap_or_default();
        // an id may be reused after an end: then any contiguous part that starts at a frame would do
        let reused = surfaced.iter().filter(|i| **i == g.0).count() > 1;
        let ok = if reused { s.windows(g.1.len().max(1)).any(|w| w == &g.1[..]) || g.1.is_empty() } else { s.starts_with(&g.1) };
        if !ok {
            return bad("foreign-bytes", format!("stream {}: read {:?}, peer sent {:?}", g.0, g.1, s));
        }
    }
    let frames: Vec<RefFrame> = WIRE.with(|w| w.borrow().as_ref().unwrap().lock().unwrap().clone());
    if !must_end && !may_end {
        if *end.borrow() != SessEnd::Running {
            return bad("ended", format!("session ended without cause: {:?}", end.borrow()));
        }
        // everything sent on open and properly ended streams arrived
        for (id, x) in &st {
            if *x == St::Murky {
                continue;
            }
            let s = sent.get(id).cloned().unwrap_or_default();
            let last = got.iter().rev().find(|g| g.0 == *id);
            match last {
                None => return bad("not-surfaced", format!("stream {} never surfaced ({:?})", id, ids)),
                Some(g) => {
                    if g.1 != s {
                        return bad("disturbed", format!("stream {}: read {:?} of {:?}", id, g.1, s));
                    }
                    if (*x == St::Ended) != g.2 {
                        return bad("end-state", format!("stream {}: reference {:?}, reader ended: {}", id, x, g.2));
                    }
                }
            }
        }
        for id in &refused {
            if !frames.iter().any(|f| f.id == *id && f.has(RST)) {
                return bad("not-refused", format!("stream {} over the limit got no reset", id));
            }
        }
        let acks: Vec<u32> = frames.iter().filter(|f| f.ty == 2 && f.has(ACK)).map(|f| f.len).collect();
        if acks != pings {
            return bad("ping-answer", format!("pings {:?} answered {:?}", pings, acks));
        }
        // the survivors still work
        let probes: Vec<u32> = st.iter().filter(|(id, x)| **x == St::Open && sent.get(*id).map(|s| s.len()).unwrap_or(0) < window as usize + granted(**id)).map(|x| *x.0).collect();
        drop(got);
        for id in probes {
            send(&Sym::F(RefFrame::data(0, id, &[0xee])));
            exec::run(opts);
            let g = app.got.borrow();
            let l = g.iter().rev().find(|g| g.0 == id);
            if l.map(|g| g.1.last() == Some(&0xee)) != Some(true) {
                return bad("disturbed", format!("stream {} no longer delivers", id));
            }
        }
    } else if must_end {
        drop(got);
        // let the close time-out pass
        let mut o = horizon(15);
        o.sched = false;
        exec::run(o);
        let go_away = frames.iter().any(|f| f.ty == 3 && f.len == 1);
        let e = end.borrow().clone();
        match e {
            SessEnd::Running => return bad("protocol-error-ignored", "the session goes on after a protocol violation".to_string()),
            SessEnd::Failed(..) => {}
            SessEnd::Finished(_) if go_away => {}
            SessEnd::Finished(_) => return bad("no-protocol-error", "the session ended without reporting the protocol error".to_string()),
        }
        outcome(format!("{:?}{}", e, go_away).as_bytes());
    } else {
        drop(got);
        let mut o = horizon(15);
        o.sched = false;
        exec::run(o);
    }
    let e = exec::steps();
    if e > 15_000 {
        return bad("livelock", "the session does not come to rest");
    }
    Ok(())
}

thread_local! {
    static WIRE: RefCell<Option<std::sync::Arc<std::sync::Mutex<Vec<RefFrame>>>>> = RefCell::new(None);
}

/// Many streams opened in one burst against the limits.
fn limits() -> R<()> {
    setup();
    let count = choose_in(&[1usize, 2, 5], "max streams");
    let backlog = choose_in(&[1usize, 2, 256], "backlog");
    let n = choose_in(&[1u32, 2, 3, 6, 12], "opens");
    let with_data = choose_in(&[false, true], "data");
    let mut cfg = config(8);
    cfg.max_stream_count = count;
    cfg.accept_backlog = backlog;
    let (a, b, ab, ba) = duplex(PipeCfg::default());
    let _b = b;
    let seen = std::sync::Arc::new(std::sync::Mutex::new(Vec::<RefFrame>::new()));
    let s2 = seen.clone();
    let mut dec = RefDecoder::default();
    ab.lock().unwrap().tap = Some(Box::new(move |d| s2.lock().unwrap().extend(dec.push(d))));
    let app = Rc::new(App {
        got: RefCell::new(vec![]),
        hold: Event::new(),
    });
    app.hold.set();
    let app2 = app.clone();
    let end = drive("session", Session::new_server(a, cfg), move |h| app_stream(&app2, h));
    let mut burst = Vec::new();
    for i in 0..n {
        let f = if with_data { RefFrame::data(SYN, 2 * i + 1, &[i as u8]) } else { RefFrame::window(SYN, 2 * i + 1, 0) };
        burst.extend(f.bytes());
    }
    burst.extend(RefFrame::ping(SYN, 5).bytes());
    ba.lock().unwrap().inject(&burst);
    let mut o = horizon(0);
    o.sched = false;
    exec::run(o);
    if *end.borrow() != SessEnd::Running {
        return bad("ended", format!("too many streams ended the session: {:?}", end.borrow()));
    }
    let got = app.got.borrow();
    let frames = seen.lock().unwrap();
    if got.len() > count {
        return bad("limit", format!("{} streams surfaced, limit {}", got.len(), count));
    }
    let want = (n as usize).min(count);
    if backlog >= n as usize && got.len() != want {
        return bad("limit", format!("{} streams surfaced, expected {}", got.len(), want));
    }
    for i in 0..n {
        let id = 2 * i + 1;
        let up = got.iter().find(|g| g.0 == id);
        let rst = frames.iter().any(|f| f.id == id && f.has(RST));
        if up.is_some() == rst {
            return bad("refusal", format!("stream {}: surfaced {} reset {}", id, up.is_some(), rst));
        }
        if let Some(g) = up {
            if with_data && g.1 != vec![i as u8] {
                return bad("disturbed", format!("stream {}: {:?}", id, g.1));
            }
        }
    }
    if !frames.iter().any(|f| f.ty == 2 && f.has(ACK) && f.len == 5) {
        return bad("ping-answer", "ping after the burst not answered");
    }
    outcome(&[got.len() as u8]);
    Ok(())
}

/// Streams the peer opens after this side has asked to close are refused.
pub fn late_open() -> R<()> {
    setup();
    let client = choose_in(&[false, true], "session type");
    let before = choose_in(&[false, true], "a stream before");
    let n = choose_in(&[1u32, 2, 3], "opens");
    let with_data = choose_in(&[false, true], "data");
    let at_once = choose_in(&[false, true], "in one go");
    let answer = choose_in(&[false, true], "peer answers the close");
    let (a, b, ab, ba) = duplex(PipeCfg::default());
    let _b = b;
    let seen = std::sync::Arc::new(std::sync::Mutex::new(Vec::<RefFrame>::new()));
    let s2 = seen.clone();
    let mut dec = RefDecoder::default();
    ab.lock().unwrap().tap = Some(Box::new(move |d| s2.lock().unwrap().extend(dec.push(d))));
    let app = Rc::new(App {
        got: RefCell::new(vec![]),
        hold: Event::new(),
    });
    app.hold.set();
    let app2 = app.clone();
    let session = if client { Session::new_client(a, config(8)) } else { Session::new_server(a, config(8)) };
    let mut control = session.control();
    let end = drive("session", session, move |h| app_stream(&app2, h));
    let mut o = horizon(0);
    o.sched = false;
    let id = |i: u32| 2 * i + if client { 2 } else { 1 };
    if before {
        ba.lock().unwrap().inject(&RefFrame::data(SYN, id(0), &[1]).bytes());
        exec::run(o);
    }
    exec::spawn("close", async move { control.close().await });
    exec::run(o);
    if !seen.lock().unwrap().iter().any(|f| f.ty == 3) {
        return bad("no-go-away", "the peer is not told that the session closes");
    }
    let known = app.got.borrow().len();
    for i in 1..=n {
        let f = if with_data { RefFrame::data(SYN, id(i), &[i as u8]) } else { RefFrame::window(SYN, id(i), 0) };
        ba.lock().unwrap().inject(&f.bytes());
        if !at_once {
            exec::run(o);
        }
    }
    exec::run(o);
    if app.got.borrow().len() != known {
        return bad("opened", "a stream opened by the peer surfaces after the close");
    }
    for i in 1..=n {
        if !seen.lock().unwrap().iter().any(|f| f.id == id(i) && f.has(RST)) {
            return bad("refusal", format!("stream {} opened after the close is not refused", id(i)));
        }
    }
    if answer {
        ba.lock().unwrap().inject(&RefFrame::go_away(0).bytes());
    }
    let mut o = horizon(25);
    o.sched = false;
    exec::run(o);
    let at = end.borrow().at();
    match at {
        Some(t) if t <= 21 * mc_engine::exec::SEC => Ok(()),
        e => bad("session-hangs", format!("the session ends at {:?}", e)),
    }
}

pub fn y08(thorough: bool) -> Vec<Scenario> {
    vec![
        Scenario::new("scripts", 0, 900,
            if thorough { "all frame sequences of length 4 over 31 frames" } else { "all frame sequences of length 3 over 31 frames (opens, data, window updates, ends, pings, go-away, malformed), immediate or late reader, with or without a local stream" },
            move || hostile(if thorough { 4 } else { 3 }, false)),
        Scenario::new("scripts-deep", 0, 900,
            "all sequences of length 5 (thorough 6) over the 11 most interacting frames",
            move || hostile(if thorough { 6 } else { 5 }, true)),
        Scenario::new("limits", 0, 60, "stream-count limits {1,2,5} x backlogs {1,2,256} x bursts of {1,2,3,6,12} opens", limits),
    ]
}
