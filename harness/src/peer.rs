//! Reference remote peer and uniform access to the interfaces of the code under test.

use crate::net::{self, Shared, R, W};
use crate::refimpl::{self, RefDir, RefKeys, RefPacket, RefParser};
use crate::run::HARNESS;
use crate::util::Rng;
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
use bip324::{
    CipherSession, FillBytes, GarbageResult, Handshake, Initialized, PacketType, ReceivedKey, Role,
    VersionResult,
};
use std::sync::{Arc, Mutex};

pub const MAGIC: [u8; 4] = [0xF9, 0xBE, 0xB4, 0xD9];
pub const LIMIT: usize = 4_000_014;

/// Feeds a fixed secret to the code under test.
pub struct FixedRng(pub [u8; 32]);
impl FillBytes for FixedRng {
    fn fill_bytes(&mut self, d: &mut [u8; 32]) {
        *d = self.0;
    }
}

pub fn rand_secret(r: &mut Rng) -> [u8; 32] {
    loop {
        let mut s: [u8; 32] = r.arr();
        match r.below(24) {
            0 => {
                s = [0; 32];
                s[31] = 1 + r.below(8) as u8;
            }
            1 => {
                s = refimpl::ORDER;
                s[31] -= 1 + r.below(8) as u8;
            }
            2 => s[..24].fill(0),
            3 => s[1..].fill(0),
            _ => {}
        }
        if s != [0; 32] && s < refimpl::ORDER {
            return s;
        }
    }
}

/// A key pair with an encoding picked with fresh randomness (libsecp256k1 as a trusted tool).
pub fn peer_key(r: &mut Rng) -> ([u8; 32], [u8; 64]) {
    thread_local! {
        static SECP: secp256k1::Secp256k1<secp256k1::All> = secp256k1::Secp256k1::new();
    }
    loop {
        let s = rand_secret(r);
        let sk = secp256k1::SecretKey::from_slice(&s).unwrap();
        let aux: [u8; 32] = r.arr();
        let es = SECP.with(|c| secp256k1::ellswift::ElligatorSwift::from_seckey(c, sk, Some(aux)));
        let e = es.to_array();
        if e[..4] != MAGIC {
            return (s, e);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Pkt {
    pub header: u8,
    pub contents: Vec<u8>,
}
pub fn pkt(header: u8, contents: &[u8]) -> Pkt {
    Pkt {
        header,
        contents: contents.to_vec(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Aad {
    /// As the BIP prescribes.
    First,
    Nth(usize),
    Never,
    All,
}

#[derive(Clone)]
pub struct PeerCfg {
    pub is_init: bool,
    pub magic: [u8; 4],
    pub secret: [u8; 32],
    pub enc: [u8; 64],
    pub garbage: Vec<u8>,
    /// Handshake packets; the last one is the version packet.
    pub handshake: Vec<Pkt>,
    /// Session packets sent right away.
    pub session: Vec<Pkt>,
    pub aad: Aad,
    /// Behave as if having the other role for the directions/terminators.
    pub wrong_role: bool,
    /// The peer saw this instead of the local key.
    pub key_seen: Option<fn(&mut [u8; 64], u64)>,
    pub key_seen_arg: u64,
}

impl PeerCfg {
    pub fn new(r: &mut Rng, impl_role: Role) -> Self {
        let (secret, enc) = peer_key(r);
        PeerCfg {
            is_init: impl_role == Role::Responder,
            magic: MAGIC,
            secret,
            enc,
            garbage: Vec::new(),
            handshake: vec![pkt(0, b"")],
            session: Vec::new(),
            aad: Aad::First,
            wrong_role: false,
            key_seen: None,
            key_seen_arg: 0,
        }
    }
    /// Random garbage and decoys of modest size.
    pub fn varied(r: &mut Rng, impl_role: Role) -> Self {
        let mut c = Self::new(r, impl_role);
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 4095,
            3 => r.below(4096),
            _ => r.below(80),
        };
        c.garbage = r.content(n);
        let mut hs = Vec::new();
        for _ in 0..r.below(4) {
            let n = if r.chance(1, 40) { r.range(5_000, 70_000) } else { r.small_size() };
            hs.push(Pkt {
                header: 0x80,
                contents: r.content(n),
            });
        }
        hs.push(pkt(0, b""));
        c.handshake = hs;
        c
    }
}

#[derive(Clone)]
pub struct RefSession {
    pub keys: RefKeys,
    pub send: RefDir,
    pub recv: RefDir,
    /// The peer's own terminator and the one it expects.
    pub my_term: [u8; 16],
    pub their_term: [u8; 16],
}

/// Offsets into the peer's byte stream.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub garbage_end: usize,
    pub term_end: usize,
    /// End of each handshake packet.
    pub hs: Vec<usize>,
    /// End of each session packet.
    pub sess: Vec<usize>,
}

pub fn session_for(cfg: &PeerCfg, their: &[u8; 64]) -> RefSession {
    let mut their = *their;
    if let Some(f) = cfg.key_seen {
        f(&mut their, cfg.key_seen_arg);
    }
    let (i, r) = if cfg.is_init {
        (cfg.enc, their)
    } else {
        (their, cfg.enc)
    };
    let keys = refimpl::derive(&cfg.secret, &i, &r, cfg.is_init, &cfg.magic);
    session_from_keys(keys, cfg.is_init != cfg.wrong_role)
}

pub fn session_from_keys(keys: RefKeys, is_init: bool) -> RefSession {
    let (send, recv) = keys.dirs(is_init);
    let (my_term, their_term) = keys.terms(is_init);
    RefSession {
        keys,
        send,
        recv,
        my_term,
        their_term,
    }
}

/// Everything the peer sends, given the session.
pub fn transcript(cfg: &PeerCfg, s: &mut RefSession) -> (Vec<u8>, Layout) {
    let mut v = cfg.enc.to_vec();
    let mut l = Layout::default();
    v.extend_from_slice(&cfg.garbage);
    l.garbage_end = v.len();
    v.extend_from_slice(&s.my_term);
    l.term_end = v.len();
    for (i, p) in cfg.handshake.iter().enumerate() {
        let with = match cfg.aad {
            Aad::First => i == 0,
            Aad::Nth(n) => i == n,
            Aad::Never => false,
            Aad::All => true,
        };
        let aad: &[u8] = if with { &cfg.garbage } else { &[] };
        v.extend_from_slice(&s.send.packet(p.header, &p.contents, aad));
        l.hs.push(v.len());
    }
    for p in &cfg.session {
        v.extend_from_slice(&s.send.packet(p.header, &p.contents, &[]));
        l.sess.push(v.len());
    }
    (v, l)
}

/// The peer attached to a transport.
pub struct Peer {
    pub cfg: PeerCfg,
    pub session: Option<RefSession>,
    pub layout: Layout,
    pub stream: Vec<u8>,
}
pub type PeerRef = Arc<Mutex<Peer>>;

pub type Mangle = Box<dyn FnOnce(Vec<u8>, &Layout, &RefSession) -> Vec<u8> + Send>;

/// Attach a peer that answers as soon as it has seen the 64 byte key.
pub fn attach(n: &Shared, cfg: PeerCfg, mangle: Option<Mangle>) -> PeerRef {
    let p = Arc::new(Mutex::new(Peer {
        cfg,
        session: None,
        layout: Layout::default(),
        stream: Vec::new(),
    }));
    let q = p.clone();
    let mut mangle = mangle;
    n.lock().unwrap().feeder = Some(Box::new(move |out: &[u8]| {
        let mut p = q.lock().unwrap();
        if p.session.is_some() || out.len() < 64 {
            return Vec::new();
        }
        let their: [u8; 64] = out[..64].try_into().unwrap();
        let mut s = session_for(&p.cfg, &their);
        let (v, l) = transcript(&p.cfg, &mut s);
        let v = match mangle.take() {
            Some(m) => m(v, &l, &s),
            None => v,
        };
        p.layout = l;
        p.session = Some(s);
        p.stream = v.clone();
        v
    }));
    p
}

/// What the code under test sent, judged by the reference.
pub struct Sent {
    pub key: [u8; 64],
    pub garbage: Vec<u8>,
    pub packets: Vec<RefPacket>,
    /// Index of the version packet in `packets` if present.
    pub version: Option<usize>,
    pub leftover: usize,
}

pub fn parse_sent(out: &[u8], s: &RefSession) -> Result<Sent, String> {
    if out.len() < 64 {
        return Err(format!("only {} bytes sent", out.len()));
    }
    let rest = &out[64..];
    let pos = rest
        .windows(16)
        .take(4096)
        .position(|w| w == s.their_term)
        .ok_or_else(|| {
            format!(
                "garbage terminator not found in the first {} bytes after the key",
                rest.len().min(4111)
            )
        })?;
    let garbage = rest[..pos].to_vec();
    let mut p = RefParser::new(s.recv.clone());
    p.feed(&rest[pos + 16..]);
    let mut packets = Vec::new();
    let mut version = None;
    loop {
        let aad: &[u8] = if packets.is_empty() { &garbage } else { &[] };
        match p.next(aad) {
            None => break,
            Some(Err(e)) => return Err(e),
            Some(Ok(k)) => {
                if version.is_none() && k.header & 0x80 == 0 {
                    version = Some(packets.len());
                }
                packets.push(k);
            }
        }
    }
    Ok(Sent {
        key: out[..64].try_into().unwrap(),
        garbage,
        packets,
        version,
        leftover: p.pending(),
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Sync,
    Async,
}
pub const KINDS: [Kind; 2] = [Kind::Sync, Kind::Async];
pub const ROLES: [Role; 2] = [Role::Initiator, Role::Responder];

/// A high level connection of the code under test over a scripted transport.
pub enum Conn {
    S(bip324::io::Protocol<R, W>),
    A(bip324::futures::Protocol<R, W>, Shared),
}

pub type OptDecoys = Option<Vec<Vec<u8>>>;

impl Conn {
    pub fn open(
        kind: Kind,
        magic: [u8; 4],
        role: Role,
        garbage: Option<Vec<u8>>,
        decoys: OptDecoys,
        n: &Shared,
    ) -> Result<Conn, ProtocolError> {
        match kind {
            Kind::Sync => bip324::io::Protocol::new(
                magic,
                role,
                garbage,
                decoys,
                R(n.clone()),
                W(n.clone()),
            )
            .map(Conn::S),
            Kind::Async => net::block(
                bip324::futures::Protocol::new(
                    magic,
                    role,
                    garbage,
                    decoys,
                    R(n.clone()),
                    W(n.clone()),
                ),
                &[n],
            )
            .map(|p| Conn::A(p, n.clone())),
        }
    }
    pub fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            Conn::S(p) => p.read(),
            Conn::A(p, n) => net::block(p.read(), &[n]),
        }
    }
    pub fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            Conn::S(c) => c.write(p),
            Conn::A(c, n) => net::block(c.write(p), &[n]),
        }
    }
    pub fn split(self) -> (ConnR, ConnW) {
        match self {
            Conn::S(p) => {
                let (r, w) = p.into_split();
                (ConnR::S(r), ConnW::S(w))
            }
            Conn::A(p, n) => {
                let (r, w) = p.into_split();
                (ConnR::A(r, n.clone()), ConnW::A(w, n))
            }
        }
    }
}

pub enum ConnR {
    S(bip324::io::ProtocolReader<R>),
    A(bip324::futures::ProtocolReader<R>, Shared),
}
pub enum ConnW {
    S(bip324::io::ProtocolWriter<W>),
    A(bip324::futures::ProtocolWriter<W>, Shared),
}
impl ConnR {
    pub fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            ConnR::S(p) => p.read(),
            ConnR::A(p, n) => net::block(p.read(), &[n]),
        }
    }
}
impl ConnW {
    pub fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            ConnW::S(c) => c.write(p),
            ConnW::A(c, n) => net::block(c.write(p), &[n]),
        }
    }
}

/// Class of a result for comparisons that ignore wording.
pub fn err_class(e: &ProtocolError) -> String {
    // errors can be shown, with their causes
    let mut cause: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = cause {
        if x.to_string().is_empty() {
            return "unprintable error".into();
        }
        cause = x.source();
    }
    match e {
        ProtocolError::Io(e, s) => {
            if e.to_string().contains(net::STARVED) {
                return "Starved".into();
            }
            format!(
                "Io({:?},{})",
                e.kind(),
                match s {
                    ProtocolFailureSuggestion::RetryV1 => "RetryV1",
                    ProtocolFailureSuggestion::Abort => "Abort",
                }
            )
        }
        ProtocolError::Internal(e) => format!("Internal({e:?})"),
    }
}

pub fn is_starved(e: &ProtocolError) -> bool {
    matches!(e, ProtocolError::Io(e, _) if e.to_string().contains(net::STARVED))
}

pub fn ptype(header: u8) -> PacketType {
    if header & 0x80 != 0 {
        PacketType::Decoy
    } else {
        PacketType::Genuine
    }
}

pub fn header_of(t: PacketType) -> u8 {
    match t {
        PacketType::Genuine => 0,
        PacketType::Decoy => 0x80,
    }
}

pub fn payload(p: &Pkt) -> Payload {
    if p.header & 0x80 != 0 {
        Payload::decoy(p.contents.clone())
    } else {
        Payload::genuine(p.contents.clone())
    }
}

pub fn secp() -> secp256k1::Secp256k1<secp256k1::SignOnly> {
    secp256k1::Secp256k1::signing_only()
}

thread_local! {
    static SIGN: secp256k1::Secp256k1<secp256k1::SignOnly> = secp256k1::Secp256k1::signing_only();
}

pub fn initialized(magic: [u8; 4], role: Role, secret: [u8; 32]) -> Handshake<Initialized> {
    SIGN.with(|c| Handshake::<Initialized>::new_with_rng(magic, role, &mut FixedRng(secret), c))
        .unwrap_or_else(|e| panic!("{}handshake for a valid secret fails: {e}", crate::run::MONITOR))
}

pub fn role_init(role: Role) -> bool {
    role == Role::Initiator
}
pub fn other(role: Role) -> Role {
    match role {
        Role::Initiator => Role::Responder,
        Role::Responder => Role::Initiator,
    }
}

/// A low-level session of the code under test together with the reference peer's view of it,
/// both positioned right after the version packets.
pub fn low_session(r: &mut Rng, role: Role) -> (CipherSession, RefSession) {
    let secret = rand_secret(r);
    let cfg = PeerCfg::new(r, role);
    let h = initialized(MAGIC, role, secret);
    let mut kb = [0u8; 64];
    let h = h.send_key(None, &mut kb).unwrap();
    let mut s = session_for(&cfg, &kb);
    let (t, _) = transcript(&cfg, &mut s);
    let h = h
        .receive_key(t[..64].try_into().unwrap())
        .unwrap_or_else(|e| panic!("{}receive_key fails: {e}", crate::run::MONITOR));
    let mut vb = vec![0u8; Handshake::<ReceivedKey>::send_version_len(None)];
    let h = h.send_version(&mut vb, None).unwrap();
    // reference consumes the version packet
    let mut p = RefParser::new(s.recv.clone());
    if vb[..16] != s.their_term {
        panic!("{}terminator differs from the reference", crate::run::MONITOR);
    }
    p.feed(&vb[16..]);
    match p.next(&[]) {
        Some(Ok(_)) => {}
        _ => panic!("{}version packet differs from the reference", crate::run::MONITOR),
    }
    s.recv = p.dir;
    let c = match h.receive_garbage(&t[64..]) {
        Ok(GarbageResult::FoundGarbage {
            mut handshake,
            consumed_bytes,
        }) => {
            let rest = &t[64 + consumed_bytes..];
            let n = handshake
                .decrypt_packet_len(rest[..3].try_into().unwrap())
                .unwrap();
            let mut b = rest[3..3 + n].to_vec();
            match handshake.receive_version(&mut b) {
                Ok(VersionResult::Complete { cipher }) => cipher,
                _ => panic!("{}honest handshake fails", crate::run::MONITOR),
            }
        }
        _ => panic!("{}honest handshake fails", crate::run::MONITOR),
    };
    (c, s)
}

/// An established high-level connection with an honest peer.
pub fn established(
    kind: Kind,
    role: Role,
    cfg: PeerCfg,
    garbage: Option<Vec<u8>>,
    decoys: OptDecoys,
    n: &Shared,
) -> (Conn, PeerRef) {
    let magic = cfg.magic;
    let p = attach(n, cfg, None);
    match Conn::open(kind, magic, role, garbage, decoys, n) {
        Ok(c) => (c, p),
        Err(e) => panic!(
            "{}honest handshake fails: {}",
            crate::run::MONITOR,
            err_class(&e)
        ),
    }
}

pub fn take_session(p: &PeerRef) -> RefSession {
    p.lock()
        .unwrap()
        .session
        .clone()
        .unwrap_or_else(|| panic!("{HARNESS}peer never saw a key"))
}

/// Outcome of a low-level handshake against a byte stream.
pub enum LowOut {
    Done {
        cipher: CipherSession,
        consumed: usize,
        decoys: usize,
    },
    Err(bip324::Error, &'static str),
    /// The stream ended before a verdict.
    Starved(&'static str),
}
impl LowOut {
    pub fn class(&self) -> String {
        match self {
            LowOut::Done { .. } => "Done".into(),
            LowOut::Err(e, _) => format!("Internal({e:?})"),
            LowOut::Starved(_) => "Starved".into(),
        }
    }
}

/// Drive the low-level handshake. `peer` maps the bytes sent after send_key and, at the second
/// call, after send_version, to the peer's stream (all of it, from its start). The garbage phase
/// is fed in increasing prefixes of random steps.
pub fn low_handshake(
    r: &mut Rng,
    magic: [u8; 4],
    role: Role,
    secret: [u8; 32],
    garbage: Option<&[u8]>,
    decoys: Option<&[&[u8]]>,
    out: &mut Vec<u8>,
    mut peer: impl FnMut(&[u8]) -> Vec<u8>,
) -> LowOut {
    use bip324::Error;
    let h = initialized(magic, role, secret);
    let mut kb = vec![0u8; Handshake::<Initialized>::send_key_len(garbage)];
    let h = match h.send_key(garbage, &mut kb) {
        Ok(h) => h,
        Err(e) => return LowOut::Err(e, "send_key"),
    };
    out.extend_from_slice(&kb);
    let s = peer(out);
    if s.len() < 64 {
        return LowOut::Starved("key");
    }
    let h = match h.receive_key(s[..64].try_into().unwrap()) {
        Ok(h) => h,
        Err(e) => return LowOut::Err(e, "receive_key"),
    };
    let mut vb = vec![0u8; Handshake::<ReceivedKey>::send_version_len(decoys)];
    let mut h = match h.send_version(&mut vb, decoys) {
        Ok(h) => h,
        Err(e) => return LowOut::Err(e, "send_version"),
    };
    out.extend_from_slice(&vb);
    let s = peer(out);
    let mut have = 64 + r.below(40).min(s.len() - 64);
    let (mut h, used) = loop {
        match h.receive_garbage(&s[64..have]) {
            Ok(GarbageResult::FoundGarbage {
                handshake,
                consumed_bytes,
            }) => break (handshake, consumed_bytes),
            Ok(GarbageResult::NeedMoreData(n)) => {
                h = n;
                if have == s.len() {
                    return LowOut::Starved("garbage");
                }
                have += (1 + r.below(700)).min(s.len() - have);
            }
            Err(e) => return LowOut::Err(e, "receive_garbage"),
        }
    };
    let mut pos = 64 + used;
    let mut n_decoys = 0;
    loop {
        if s.len() - pos < 3 {
            return LowOut::Starved("length");
        }
        let n = match h.decrypt_packet_len(s[pos..pos + 3].try_into().unwrap()) {
            Ok(n) => n,
            Err(e) => return LowOut::Err(e, "decrypt_packet_len"),
        };
        if n > LIMIT {
            return LowOut::Err(Error::PacketTooBig, "harness");
        }
        pos += 3;
        if s.len() - pos < n {
            return LowOut::Starved("packet");
        }
        let mut b = s[pos..pos + n].to_vec();
        pos += n;
        match h.receive_version(&mut b) {
            Ok(VersionResult::Complete { cipher }) => {
                return LowOut::Done {
                    cipher,
                    consumed: pos,
                    decoys: n_decoys,
                }
            }
            Ok(VersionResult::Decoy(n)) => {
                n_decoys += 1;
                h = n;
            }
            Err(e) => return LowOut::Err(e, "receive_version"),
        }
    }
}

/// Decrypt through one of the three entry points.
pub fn low_decrypt(
    c: &mut bip324::InboundCipher,
    body: &[u8],
    entry: usize,
    aad: Option<&[u8]>,
) -> Result<(PacketType, Vec<u8>), bip324::Error> {
    match entry % 3 {
        0 => {
            let mut b = vec![0u8; body.len().saturating_sub(16)];
            let t = c.decrypt(body, &mut b, aad)?;
            Ok((t, b))
        }
        1 => {
            let mut b = body.to_vec();
            let (t, x) = c.decrypt_in_place(&mut b, aad)?;
            Ok((t, x.to_vec()))
        }
        _ => c.decrypt_to_vec(body, aad),
    }
}
