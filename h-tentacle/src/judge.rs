//! Judgements over the log of callbacks.
use std::collections::{BTreeMap, BTreeSet};

use mc_engine::{bad, R};

use crate::world::*;

/// Open sessions of a service: id to (outbound, address, key).
pub fn live(log: &[Entry], svc: usize) -> BTreeMap<usize, (bool, String, Option<usize>)> {
    let mut m = BTreeMap::new();
    for e in log.iter().filter(|e| e.svc == svc) {
        match &e.ev {
            Ev::Open { id, out, addr, key } => {
                m.insert(*id, (*out, addr.clone(), *key));
            }
            Ev::Close { id } => {
                m.remove(id);
            }
            _ => (),
        }
    }
    m
}

/// Whether a handler level last saw the protocol open on the session.
pub fn connected(log: &[Entry], svc: usize, lv: Lv, id: usize, proto: usize) -> bool {
    let mut on = false;
    for e in log.iter().filter(|e| e.svc == svc) {
        match &e.ev {
            Ev::Conn {
                lv: l,
                id: i,
                proto: p,
                ..
            } if (*l, *i, *p) == (lv, id, proto) => on = true,
            Ev::Disc {
                lv: l,
                id: i,
                proto: p,
            } if (*l, *i, *p) == (lv, id, proto) => on = false,
            _ => (),
        }
    }
    on
}

pub fn ended(log: &[Entry], svc: usize) -> bool {
    log.iter().any(|e| e.svc == svc && e.ev == Ev::End)
}

/// Strict alternation of connected / received / disconnected per level, session and protocol.
pub fn nesting(log: &[Entry]) -> R<()> {
    let mut on: BTreeSet<(usize, Lv, usize, usize)> = BTreeSet::new();
    for e in log {
        match &e.ev {
            Ev::Conn { lv, id, proto, .. } => {
                if !on.insert((e.svc, *lv, *id, *proto)) {
                    return bad(
                        "connected-twice",
                        format!(
                            "service {}: {:?} handler of protocol {} connected twice on session {}",
                            e.svc, lv, proto, id
                        ),
                    );
                }
            }
            Ev::Recv { lv, id, proto, .. } => {
                if !on.contains(&(e.svc, *lv, *id, *proto)) {
                    return bad("received-outside", format!("service {}: {:?} handler of protocol {} received on session {} while not connected", e.svc, lv, proto, id));
                }
            }
            Ev::Disc { lv, id, proto } => {
                if !on.remove(&(e.svc, *lv, *id, *proto)) {
                    return bad("disconnected-outside", format!("service {}: {:?} handler of protocol {} disconnected on session {} while not connected", e.svc, lv, proto, id));
                }
            }
            _ => (),
        }
    }
    Ok(())
}

/// Each session opens once and closes at most once, events lie within the span.
pub fn sessions(log: &[Entry]) -> R<()> {
    let mut seen: BTreeMap<(usize, usize), bool> = BTreeMap::new();
    for e in log {
        match &e.ev {
            Ev::Open { id, .. } => {
                if seen.insert((e.svc, *id), true).is_some() {
                    return bad(
                        "opened-twice",
                        format!("service {}: session {} opened twice", e.svc, id),
                    );
                }
            }
            Ev::Close { id } => match seen.insert((e.svc, *id), false) {
                Some(true) => (),
                x => {
                    return bad(
                        "close-outside",
                        format!(
                            "service {}: session {} closed, but it was {}",
                            e.svc,
                            id,
                            if x.is_some() {
                                "closed before"
                            } else {
                                "never open"
                            }
                        ),
                    )
                }
            },
            Ev::Err {
                id: Some(id), kind, ..
            } if seen.get(&(e.svc, *id)) != Some(&true) => {
                return bad(
                    "error-outside",
                    format!(
                        "service {}: {} error for session {}, which is not open",
                        e.svc, kind, id
                    ),
                )
            }
            Ev::Conn { id, lv, .. } | Ev::Recv { id, lv, .. } | Ev::Disc { id, lv, .. } => {
                let known = seen.get(&(e.svc, *id));
                if known.is_none() || (*lv == Lv::Event && known != Some(&true)) {
                    return bad(
                        "event-outside",
                        format!("service {}: {:?}, session is not open", e.svc, e.ev),
                    );
                }
            }
            _ => (),
        }
    }
    Ok(())
}

/// No two open sessions with one key.
pub fn one_per_key(log: &[Entry], nsvc: usize) -> R<()> {
    for s in 0..nsvc {
        let mut keys: BTreeMap<usize, usize> = BTreeMap::new();
        for e in log.iter().filter(|e| e.svc == s) {
            match &e.ev {
                Ev::Open {
                    id, key: Some(k), ..
                } => {
                    if let Some(old) = keys.insert(*k, *id) {
                        return bad(
                            "two-sessions",
                            format!(
                                "service {}: sessions {} and {} to the peer with key {}",
                                s, old, id, k
                            ),
                        );
                    }
                }
                Ev::Close { id } => keys.retain(|_, v| v != id),
                _ => (),
            }
        }
    }
    Ok(())
}

/// No task of any service panicked.
pub fn no_panic() -> R<()> {
    match panics().first() {
        Some(p) => bad("task-panic", format!("task {} panicked", p)),
        None => Ok(()),
    }
}

/// The service has completely stopped.
pub fn stopped(log: &[Entry], svc: usize, graceful: bool) -> R<()> {
    if !ended(log, svc) {
        return bad(
            "no-end",
            format!(
                "service {} was told to stop but its event loop has not ended",
                svc
            ),
        );
    }
    let t = live_tasks(svc);
    if !t.is_empty() {
        return bad(
            "tasks-left",
            format!("service {} ended, its tasks {:?} have not", svc, t),
        );
    }
    if graceful {
        if let Some((id, _)) = live(log, svc).iter().next() {
            return bad(
                "close-unreported",
                format!(
                    "service {} ended gracefully without reporting the close of session {}",
                    svc, id
                ),
            );
        }
        let mut l: Vec<&String> = Vec::new();
        for e in log.iter().filter(|e| e.svc == svc) {
            match &e.ev {
                Ev::ListenStarted(a) => l.push(a),
                Ev::ListenClose(a) => match l.iter().position(|x| *x == a) {
                    Some(i) => {
                        l.remove(i);
                    }
                    None => {
                        return bad(
                            "listen-close",
                            format!(
                                "service {}: close of listener {} that is not listening",
                                svc, a
                            ),
                        )
                    }
                },
                _ => (),
            }
        }
        if let Some(a) = l.first() {
            return bad(
                "listen-unreported",
                format!(
                    "service {} ended gracefully without reporting the close of listener {}",
                    svc, a
                ),
            );
        }
    }
    Ok(())
}
