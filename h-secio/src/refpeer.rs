//! An independent implementation of the handshake and record layer, written from the
//! protocol description, able to misbehave.
use std::cmp::Ordering;

use mc_engine::pipe::End;
use ring::{aead, agreement, digest, hmac, rand::SystemRandom};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey, Signature};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

pub fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut c = digest::Context::new(&digest::SHA256);
    for p in parts {
        c.update(p);
    }
    c.finish().as_ref().to_vec()
}

// ---- serialisation

#[cfg(feature = "molc")]
mod wire {
    fn fixvec(d: &[u8]) -> Vec<u8> {
        let mut v = (d.len() as u32).to_le_bytes().to_vec();
        v.extend_from_slice(d);
        v
    }

    pub fn table(fields: &[&[u8]]) -> Vec<u8> {
        let items: Vec<Vec<u8>> = fields.iter().map(|f| fixvec(f)).collect();
        let head = 4 + 4 * items.len();
        let total = head + items.iter().map(|i| i.len()).sum::<usize>();
        let mut v = (total as u32).to_le_bytes().to_vec();
        let mut off = head;
        for i in &items {
            v.extend_from_slice(&(off as u32).to_le_bytes());
            off += i.len();
        }
        for i in items {
            v.extend(i);
        }
        v
    }

    pub fn untable(d: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
        let u = |i: usize| -> Option<usize> {
            let b = d.get(i..i + 4)?;
            Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
        };
        if u(0)? != d.len() {
            return None;
        }
        (0..n)
            .map(|i| {
                let o = u(4 + 4 * i)?;
                let l = u(o)?;
                Some(d.get(o + 4..o + 4 + l)?.to_vec())
            })
            .collect()
    }

    pub fn encode_pubkey(key: &[u8]) -> Vec<u8> {
        let mut v = 0u32.to_le_bytes().to_vec();
        v.extend(fixvec(key));
        v
    }

    pub fn decode_pubkey(d: &[u8]) -> Option<Vec<u8>> {
        if d.len() < 8 || d[..4] != [0; 4] {
            return None;
        }
        let l = u32::from_le_bytes([d[4], d[5], d[6], d[7]]) as usize;
        if d.len() != 8 + l {
            return None;
        }
        Some(d[8..].to_vec())
    }
}

/// Flatbuffers: a table is an offset to its field positions, then its fields
#[cfg(feature = "flatc")]
mod wire {
    pub enum Field<'a> {
        Byte(u8),
        Bytes(&'a [u8]),
    }

    fn put(fields: &[Field]) -> Vec<u8> {
        let vt = 4 + 2 * fields.len();
        let table = (4 + vt + 3) / 4 * 4;
        let inline = 4 + 4 * fields.len();
        let mut v = (table as u32).to_le_bytes().to_vec();
        v.resize(table - vt, 0);
        v.extend_from_slice(&(vt as u16).to_le_bytes());
        v.extend_from_slice(&(inline as u16).to_le_bytes());
        for i in 0..fields.len() {
            v.extend_from_slice(&(4 + 4 * i as u16).to_le_bytes());
        }
        v.extend_from_slice(&(vt as u32).to_le_bytes());
        v.resize(table + inline, 0);
        for (i, f) in fields.iter().enumerate() {
            let at = table + 4 + 4 * i;
            match f {
                Field::Byte(b) => v[at] = *b,
                Field::Bytes(d) => {
                    let off = (v.len() - at) as u32;
                    v[at..at + 4].copy_from_slice(&off.to_le_bytes());
                    v.extend_from_slice(&(d.len() as u32).to_le_bytes());
                    v.extend_from_slice(d);
                    // strings end in a zero
                    v.push(0);
                    while v.len() % 4 != 0 {
                        v.push(0)
                    }
                }
            }
        }
        v
    }

    fn u32_at(d: &[u8], i: usize) -> Option<usize> {
        let b = d.get(i..i.checked_add(4)?)?;
        Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
    }

    fn u16_at(d: &[u8], i: usize) -> Option<usize> {
        let b = d.get(i..i.checked_add(2)?)?;
        Some(u16::from_le_bytes([b[0], b[1]]) as usize)
    }

    /// Where a field lies, if it is there
    fn field(d: &[u8], i: usize) -> Option<usize> {
        let table = u32_at(d, 0)?;
        let back = u32_at(d, table)? as u32 as i32 as i64;
        let vt = (table as i64).checked_sub(back).filter(|v| *v >= 0)? as usize;
        if 4 + 2 * i + 2 > u16_at(d, vt)? {
            return None;
        }
        match u16_at(d, vt + 4 + 2 * i)? {
            0 => None,
            o => Some(table + o),
        }
    }

    fn bytes(d: &[u8], i: usize) -> Option<Vec<u8>> {
        let at = field(d, i)?;
        let v = at + u32_at(d, at)?;
        let l = u32_at(d, v)?;
        Some(d.get(v + 4..v.checked_add(4)?.checked_add(l)?)?.to_vec())
    }

    pub fn table(fields: &[&[u8]]) -> Vec<u8> {
        put(&fields.iter().map(|f| Field::Bytes(f)).collect::<Vec<_>>())
    }

    pub fn untable(d: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
        (0..n).map(|i| bytes(d, i)).collect()
    }

    pub fn encode_pubkey(key: &[u8]) -> Vec<u8> {
        put(&[Field::Byte(0), Field::Bytes(key)])
    }

    pub fn decode_pubkey(d: &[u8]) -> Option<Vec<u8>> {
        match field(d, 0) {
            Some(at) if d.get(at) != Some(&0) => None,
            _ => bytes(d, 1),
        }
    }
}
pub use wire::*;

// ---- record layer

pub struct RefCipher {
    key: aead::LessSafeKey,
    ctr: u128,
}

pub const CIPHERS: [&str; 3] = ["AES-128-GCM", "AES-256-GCM", "CHACHA20_POLY1305"];
pub const AGREEMENTS: [&str; 3] = ["P-256", "P-384", "X25519"];
pub const HASHES: [&str; 2] = ["SHA256", "SHA512"];

pub fn key_size(c: &str) -> usize {
    if c == "AES-128-GCM" {
        16
    } else {
        32
    }
}

impl RefCipher {
    pub fn new(c: &str, key: &[u8]) -> Self {
        let alg = match c {
            "AES-128-GCM" => &aead::AES_128_GCM,
            "AES-256-GCM" => &aead::AES_256_GCM,
            _ => &aead::CHACHA20_POLY1305,
        };
        RefCipher {
            key: aead::LessSafeKey::new(aead::UnboundKey::new(alg, key).unwrap()),
            ctr: 0,
        }
    }
    fn nonce(&mut self) -> aead::Nonce {
        self.ctr += 1;
        let b = self.ctr.to_le_bytes();
        let mut n = [0; 12];
        n.copy_from_slice(&b[..12]);
        aead::Nonce::assume_unique_for_key(n)
    }
    pub fn seal(&mut self, d: &[u8]) -> Vec<u8> {
        let mut v = d.to_vec();
        let n = self.nonce();
        self.key.seal_in_place_append_tag(n, aead::Aad::empty(), &mut v).unwrap();
        v
    }
    pub fn open(&mut self, d: &[u8]) -> Option<Vec<u8>> {
        let mut v = d.to_vec();
        let n = self.nonce();
        self.key.open_in_place(n, aead::Aad::empty(), &mut v).ok().map(|x| x.to_vec())
    }
}

pub async fn send(io: &mut End, d: &[u8]) -> Option<()> {
    let mut v = (d.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(d);
    io.write_all(&v).await.ok()?;
    io.flush().await.ok()
}

pub async fn recv(io: &mut End) -> Option<Vec<u8>> {
    let mut h = [0; 4];
    io.read_exact(&mut h).await.ok()?;
    let n = u32::from_be_bytes(h) as usize;
    if n > 1 << 20 {
        return None;
    }
    let mut v = vec![0; n];
    io.read_exact(&mut v).await.ok()?;
    Some(v)
}

// ---- handshake

#[derive(Clone, Debug, PartialEq)]
pub enum Attack {
    None,
    /// claim this public key, sign with our own
    ClaimKey(Vec<u8>),
    /// encode our own key in another form
    KeyForm(usize),
    /// send these bytes as the public key message
    RawKey(Vec<u8>),
    SignWrongOrder,
    SignWithoutEphemeral,
    SignOtherEphemeral,
    SignNothing,
    Signature(Vec<u8>),
    Ephemeral(Vec<u8>),
    /// send back only the first n bytes of the nonce
    ConfirmPrefix(usize),
    /// the nonce with one byte changed
    ConfirmWrong(usize),
    ConfirmOwnNonce,
    /// not encrypted
    ConfirmPlain,
    ConfirmRaw(Vec<u8>),
    NoConfirm,
    /// nonce of this length
    NonceLen(usize),
    ProposeRaw(Vec<u8>),
    ExchangeRaw(Vec<u8>),
}

#[derive(Clone)]
pub struct RefCfg {
    pub sk: SecretKey,
    pub agreements: String,
    pub ciphers: String,
    pub hashes: String,
    /// who decides: Some(true) = the reference peer
    pub precedence: Option<bool>,
    pub attack: Attack,
}

pub struct RefSession {
    pub enc: RefCipher,
    pub dec: RefCipher,
    pub remote_key: Vec<u8>,
    pub agreement: String,
    pub cipher: String,
    pub hash: String,
}

pub fn pubkey(sk: &SecretKey) -> Vec<u8> {
    let secp = Secp256k1::signing_only();
    PublicKey::from_secret_key(&secp, sk).serialize().to_vec()
}

pub fn select(prefer: &str, other: &str, known: &[&str]) -> Option<String> {
    prefer
        .split(',')
        .find(|x| known.contains(x) && other.split(',').any(|y| y == *x))
        .map(|x| x.to_string())
}

fn stretch(alg: hmac::Algorithm, secret: &[u8], n: usize) -> Vec<u8> {
    let key = hmac::Key::new(alg, secret);
    let seed = b"key expansion";
    let mut a = hmac::sign(&key, seed).as_ref().to_vec();
    let mut out = Vec::new();
    while out.len() < n {
        let mut c = a.clone();
        c.extend_from_slice(seed);
        out.extend_from_slice(hmac::sign(&key, &c).as_ref());
        a = hmac::sign(&key, &a).as_ref().to_vec();
    }
    out.truncate(n);
    out
}

pub struct Proposal {
    pub nonce: Vec<u8>,
    pub key: Vec<u8>,
    pub agreements: String,
    pub ciphers: String,
    pub hashes: String,
}

pub fn parse_proposal(d: &[u8]) -> Option<Proposal> {
    let f = untable(d, 5)?;
    Some(Proposal {
        nonce: f[0].clone(),
        key: decode_pubkey(&f[1])?,
        agreements: String::from_utf8(f[2].clone()).ok()?,
        ciphers: String::from_utf8(f[3].clone()).ok()?,
        hashes: String::from_utf8(f[4].clone()).ok()?,
    })
}

/// Runs the handshake; the error names the step.
pub async fn handshake(io: &mut End, cfg: &RefCfg) -> Result<RefSession, &'static str> {
    let secp = Secp256k1::new();
    let their_msg = recv(io).await.ok_or("recv-proposal")?;
    let theirs = parse_proposal(&their_msg).ok_or("parse-proposal")?;
    let mut my_key = pubkey(&cfg.sk);
    match &cfg.attack {
        Attack::ClaimKey(k) => my_key = k.clone(),
        Attack::KeyForm(n) => {
            let pk = PublicKey::from_slice(&my_key).unwrap();
            my_key = pk.serialize_uncompressed().to_vec();
            if *n == 1 {
                // hybrid form
                my_key[0] = 6 | (my_key[64] & 1);
            }
        }
        _ => {}
    }
    // pick a nonce that gives the wanted precedence
    let mut nonce = vec![0u8; 16];
    if let Attack::NonceLen(n) = cfg.attack {
        nonce = vec![0; n];
    }
    let mut ordering;
    let mut tries = 0u32;
    loop {
        ordering = sha256(&[&theirs.key, &nonce]).cmp(&sha256(&[&my_key, &theirs.nonce]));
        let ok = match cfg.precedence {
            None => true,
            Some(true) => ordering == Ordering::Greater,
            Some(false) => ordering == Ordering::Less,
        };
        if ok || nonce.is_empty() {
            break;
        }
        tries += 1;
        let b = tries.to_le_bytes();
        let n = nonce.len().min(4);
        nonce[..n].copy_from_slice(&b[..n]);
    }
    let key_msg = match &cfg.attack {
        Attack::RawKey(r) => r.clone(),
        _ => encode_pubkey(&my_key),
    };
    let mine = match &cfg.attack {
        Attack::ProposeRaw(r) => r.clone(),
        _ => table(&[
            &nonce,
            &key_msg,
            cfg.agreements.as_bytes(),
            cfg.ciphers.as_bytes(),
            cfg.hashes.as_bytes(),
        ]),
    };
    send(io, &mine).await.ok_or("send-proposal")?;
    let pick = |a: &str, b: &str, known: &[&str]| {
        if ordering == Ordering::Greater {
            select(a, b, known)
        } else {
            select(b, a, known)
        }
    };
    let agreement = pick(&cfg.agreements, &theirs.agreements, &AGREEMENTS).ok_or("no-agreement")?;
    let cipher = pick(&cfg.ciphers, &theirs.ciphers, &CIPHERS).ok_or("no-cipher")?;
    let hash = pick(&cfg.hashes, &theirs.hashes, &HASHES).ok_or("no-hash")?;
    let alg: &'static agreement::Algorithm = match &agreement[..] {
        "P-256" => &agreement::ECDH_P256,
        "P-384" => &agreement::ECDH_P384,
        _ => &agreement::X25519,
    };
    let rng = SystemRandom::new();
    let esk = agreement::EphemeralPrivateKey::generate(alg, &rng).unwrap();
    let mut epk = esk.compute_public_key().unwrap().as_ref().to_vec();
    if let Attack::Ephemeral(e) = &cfg.attack {
        epk = e.clone();
    }
    let to_sign = match &cfg.attack {
        Attack::SignWrongOrder => sha256(&[&their_msg, &mine, &epk]),
        Attack::SignWithoutEphemeral => sha256(&[&mine, &their_msg]),
        Attack::SignOtherEphemeral => {
            let mut e = epk.clone();
            e[5] ^= 1;
            sha256(&[&mine, &their_msg, &e])
        }
        Attack::SignNothing => sha256(&[]),
        _ => sha256(&[&mine, &their_msg, &epk]),
    };
    let sig = match &cfg.attack {
        Attack::Signature(s) => s.clone(),
        _ => secp
            .sign(&Message::from_slice(&to_sign).unwrap(), &cfg.sk)
            .serialize_der()
            .to_vec(),
    };
    let ex = match &cfg.attack {
        Attack::ExchangeRaw(r) => r.clone(),
        _ => table(&[&epk, &sig]),
    };
    send(io, &ex).await.ok_or("send-exchange")?;
    let their_ex = recv(io).await.ok_or("recv-exchange")?;
    let f = untable(&their_ex, 2).ok_or("parse-exchange")?;
    let msg = Message::from_slice(&sha256(&[&their_msg, &mine, &f[0]])).unwrap();
    let sig = Signature::from_der(&f[1]).map_err(|_| "signature-form")?;
    let pk = PublicKey::from_slice(&theirs.key).map_err(|_| "key-form")?;
    secp.verify(&msg, &sig, &pk).map_err(|_| "signature")?;
    let secret = agreement::agree_ephemeral(
        esk,
        &agreement::UnparsedPublicKey::new(alg, &f[0]),
        "agree",
        |k| Ok(k.to_vec()),
    )?;
    let ks = key_size(&cipher);
    let half = 12 + ks + 20;
    let hm = if hash == "SHA256" { hmac::HMAC_SHA256 } else { hmac::HMAC_SHA512 };
    let long = stretch(hm, &secret, 2 * half);
    let (first, second) = long.split_at(half);
    let (l, r) = if ordering == Ordering::Greater { (first, second) } else { (second, first) };
    let mut enc = RefCipher::new(&cipher, &l[12..12 + ks]);
    let mut dec = RefCipher::new(&cipher, &r[12..12 + ks]);
    match &cfg.attack {
        Attack::NoConfirm => {}
        Attack::ConfirmPlain => send(io, &theirs.nonce).await.ok_or("send-confirm")?,
        Attack::ConfirmRaw(r) => send(io, r).await.ok_or("send-confirm")?,
        a => {
            let mut c = theirs.nonce.clone();
            match a {
                Attack::ConfirmPrefix(n) => c.truncate(*n),
                Attack::ConfirmWrong(i) => c[*i] ^= 0x40,
                Attack::ConfirmOwnNonce => c = nonce.clone(),
                _ => {}
            }
            let m = enc.seal(&c);
            send(io, &m).await.ok_or("send-confirm")?;
        }
    }
    let c = recv(io).await.ok_or("recv-confirm")?;
    let c = dec.open(&c).ok_or("open-confirm")?;
    if c != nonce {
        return Err("nonce");
    }
    Ok(RefSession {
        enc,
        dec,
        remote_key: theirs.key,
        agreement,
        cipher,
        hash,
    })
}
