//! Identities (S05).
use mc_engine::exec;
use mc_engine::pipe::{duplex, PipeCfg};
use mc_engine::{bad, choose, choose_in, outcome, tick_steps, Scenario, R};
use secp256k1::SecretKey;
use tentacle_secio::{handshake::Config, PeerId, PublicKey, SecioKeyPair};

use crate::refpeer::{self, Attack, RefCfg};
use crate::shake::{key, raw_key};

fn reference_id(k: &[u8]) -> Vec<u8> {
    let mut v = vec![0x12, 32];
    v.extend(refpeer::sha256(&[k]));
    v
}

/// A valid id has exactly one byte form: code 0x12, length 32, digest.
fn valid_id(d: &[u8]) -> bool {
    d.len() == 34 && d[0] == 0x12 && d[1] == 32
}

fn check_id(d: Vec<u8>) -> R<()> {
    tick_steps(1);
    match (PeerId::from_bytes(d.clone()), valid_id(&d)) {
        (Ok(p), true) => {
            if p.as_bytes() != &d[..] || p.clone().into_bytes() != d || p.digest() != &d[2..] {
                return bad("form", format!("{:02x?} comes back as {:02x?}", d, p.as_bytes()));
            }
            match p.to_base58().parse::<PeerId>() {
                Ok(q) if q == p => Ok(()),
                q => bad("text", format!("{} parses to {:?}", p.to_base58(), q)),
            }
        }
        (Err(()), false) => Ok(()),
        (Ok(_), false) => bad("accepted-id", format!("{:02x?}", d)),
        (Err(()), true) => bad("refused-id", format!("{:02x?}", d)),
    }
}

fn ids() -> R<()> {
    let k = key(choose(8, "key") as u8);
    let id = k.peer_id();
    let pk = k.public_key();
    let raw = id.as_bytes().to_vec();
    if raw != reference_id(k.public_key().inner_ref()) {
        return bad("function", format!("{:?}", raw));
    }
    if !id.is_public_key(&k.public_key()) || id != k.public_key().peer_id() || id != PeerId::from(k.public_key()) {
        return bad("function", "the ways to the id differ".to_string());
    }
    match choose(6, "form") {
        0 => {
            for i in 0..raw.len() {
                for b in 0..=255u8 {
                    let mut d = raw.clone();
                    d[i] = b;
                    check_id(d.clone())?;
                    if let Ok(p) = PeerId::from_bytes(d.clone()) {
                        let same = d == raw;
                        if (p == id) != same || p.is_public_key(&pk) != same {
                            return bad("distinct", format!("{:02x?} passes for {:02x?}", d, raw));
                        }
                    }
                }
            }
        }
        1 => {
            for i in 0..raw.len() {
                check_id(raw[..i].to_vec())?;
                let mut d = raw.clone();
                d.remove(i);
                check_id(d)?;
            }
        }
        2 => {
            for i in 0..=raw.len() {
                for b in 0..=255u8 {
                    let mut d = raw.clone();
                    d.insert(i, b);
                    check_id(d)?;
                }
            }
        }
        3 => {
            // every code prefix of up to three bytes around the digest
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    let mut d = vec![a, b];
                    d.extend_from_slice(&raw[1..]);
                    check_id(d)?;
                    let mut d = vec![0x92, a, b];
                    d.extend_from_slice(&raw[1..]);
                    check_id(d)?;
                    let mut d = vec![a, b];
                    d.extend_from_slice(&raw[2..]);
                    check_id(d)?;
                }
            }
        }
        4 => {
            // text: every character replaced, removed, inserted
            let t = id.to_base58();
            let chars: Vec<char> = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl/ +\n\u{e9}".chars().collect();
            let cs: Vec<char> = t.chars().collect();
            let mut forms: Vec<String> = vec!["".into(), " ".into(), t.clone() + "1"];
            for i in 0..=cs.len() {
                for c in &chars {
                    let mut x = cs.clone();
                    x.insert(i, *c);
                    forms.push(x.iter().collect());
                    if i < cs.len() {
                        let mut x = cs.clone();
                        x[i] = *c;
                        forms.push(x.iter().collect());
                    }
                }
                if i < cs.len() {
                    let mut x = cs.clone();
                    x.remove(i);
                    forms.push(x.iter().collect());
                }
            }
            for f in forms {
                tick_steps(1);
                if let Ok(p) = f.parse::<PeerId>() {
                    if p.to_base58() != f {
                        return bad("text", format!("{:?} accepted as {}", f, p.to_base58()));
                    }
                    if (p == id) != (f == t) {
                        return bad("text", format!("{:?} gives the id of {:?}", f, t));
                    }
                    if !valid_id(p.as_bytes()) {
                        return bad("accepted-id", f);
                    }
                }
            }
        }
        _ => {
            for j in 0..8 {
                let other = key(j);
                let same = other.public_key() == k.public_key();
                if (other.peer_id() == id) != same || id.is_public_key(&other.public_key()) != same {
                    return bad("distinct", "two keys share an id".to_string());
                }
            }
        }
    }
    Ok(())
}

/// A decoded key is a point in its one canonical form.
fn judge_key(d: &[u8]) -> R<()> {
    tick_steps(1);
    if let Some(k) = PublicKey::decode(d) {
        let canon = secp256k1::PublicKey::from_slice(k.inner_ref()).ok().map(|p| p.serialize().to_vec());
        if canon.as_ref() != Some(k.inner_ref()) {
            return bad("key-form", format!("decoded key {:02x?} is not the canonical form of a key", k.inner_ref()));
        }
        if PublicKey::decode(&k.clone().encode()[..]).as_ref() != Some(&k) {
            return bad("key-form", format!("{:02x?} does not survive encoding", k.inner_ref()));
        }
    }
    Ok(())
}

fn pubkeys() -> R<()> {
    let k = key(choose(8, "key") as u8).public_key();
    let enc = k.clone().encode().to_vec();
    if PublicKey::decode(&enc).as_ref() != Some(&k) || refpeer::decode_pubkey(&enc).as_ref() != Some(k.inner_ref()) || PublicKey::decode(&refpeer::encode_pubkey(k.inner_ref())).as_ref() != Some(&k) {
        return bad("key-form", "encode/decode of an honest key".to_string());
    }
    match choose(5, "form") {
        0 => {
            for i in 0..enc.len() {
                for b in 0..=255u8 {
                    let mut d = enc.clone();
                    d[i] = b;
                    judge_key(&d)?;
                }
            }
        }
        1 => {
            for i in 0..enc.len() {
                judge_key(&enc[..i])?;
                let mut d = enc.clone();
                d.remove(i);
                judge_key(&d)?;
            }
        }
        2 => {
            for i in 0..=enc.len() {
                for b in 0..=255u8 {
                    let mut d = enc.clone();
                    d.insert(i, b);
                    judge_key(&d)?;
                }
            }
        }
        3 => {
            // other serialisations of the same point, and non-points
            let p = secp256k1::PublicKey::from_slice(k.inner_ref()).unwrap();
            let un = p.serialize_uncompressed().to_vec();
            let mut hy = un.clone();
            hy[0] = 6 | (un[64] & 1);
            for raw in [un.clone(), hy.clone(), vec![], vec![2; 33], vec![0; 33], vec![4; 65]].iter() {
                judge_key(&refpeer::encode_pubkey(raw))?;
                match PublicKey::secp256k1_raw_key(raw) {
                    Ok(q) => {
                        if secp256k1::PublicKey::from_slice(raw).map(|p| p.serialize().to_vec()).ok().as_ref() != Some(q.inner_ref()) {
                            return bad("raw-key", format!("{:02x?}", raw));
                        }
                        if (*raw == un || *raw == hy) && q.peer_id() != k.peer_id() {
                            return bad("raw-key", "another form of the key has another id".to_string());
                        }
                    }
                    Err(_) => {
                        if secp256k1::PublicKey::from_slice(raw).is_ok() {
                            return bad("raw-key", format!("valid key refused {:02x?}", raw));
                        }
                    }
                }
            }
        }
        _ => {
            // secret keys: exactly the 32-byte scalars in range
            let n: Vec<u8> = (0..32).map(|i| {
                let order = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
                u8::from_str_radix(&order[2 * i..2 * i + 2], 16).unwrap()
            }).collect();
            let mut below = n.clone();
            below[31] -= 1;
            let mut one = vec![0; 32];
            one[31] = 1;
            for (raw, ok) in [(n, false), (below, true), (vec![0; 32], false), (one, true), (vec![1; 31], false), (vec![1; 33], false), (vec![], false), (vec![0xff; 32], false)].iter() {
                match SecioKeyPair::secp256k1_raw_key(raw) {
                    Ok(p) if *ok => {
                        if p.public_key().inner_ref() != &refpeer::pubkey(&SecretKey::from_slice(raw).unwrap()) {
                            return bad("raw-key", format!("wrong public key for {:02x?}", raw));
                        }
                    }
                    Err(_) if !*ok => {}
                    _ => return bad("raw-key", format!("secret {:02x?}", raw)),
                }
            }
        }
    }
    Ok(())
}

/// A peer that presents its key in another form must not get another identity.
fn alias() -> R<()> {
    exec::reset(None);
    let form = choose(2, "form");
    let k = choose_in(&[1u8, 2, 3, 4, 5], "key");
    let rc = RefCfg {
        sk: SecretKey::from_slice(&raw_key(k)).unwrap(),
        agreements: "X25519".into(),
        ciphers: "AES-128-GCM".into(),
        hashes: "SHA256".into(),
        precedence: Some(choose(2, "precedence") == 1),
        attack: Attack::KeyForm(form),
    };
    let (a, mut b, ab, ba) = duplex(PipeCfg::default());
    let h = exec::spawn("real", async move { Config::new(key(0)).handshake(a).await.map_err(|e| format!("{:?}", e)) });
    exec::spawn("peer", async move {
        let _ = refpeer::handshake(&mut b, &rc).await;
    });
    exec::run(Default::default());
    for d in [ab, ba].iter() {
        let mut d = d.lock().unwrap();
        d.eof = true;
        d.wake_all();
    }
    exec::run(Default::default());
    match h.take() {
        None => bad("hang", "handshake hangs".to_string()),
        Some(Err(e)) => {
            outcome(e.as_bytes());
            Ok(())
        }
        Some(Ok((_, p, _))) => {
            if p.peer_id() != key(k).peer_id() {
                return bad("alias", format!("the holder of one key got a second identity {:?}", p.peer_id()));
            }
            Ok(())
        }
    }
}

pub fn s05(_thorough: bool) -> Vec<Scenario> {
    vec![
        Scenario::new("peer-ids", 0, 300, "eight keys: every byte value at every position, every deletion and insertion, all two-byte prefixes, all one-character text edits", ids),
        Scenario::new("public-keys", 0, 300, "eight keys: every byte value at every position, deletions, insertions, other serialisations of the point, boundary secrets", pubkeys),
        Scenario::new("alias", 0, 60, "handshakes in which the peer presents its own key in another serialisation", alias),
    ]
}
