//! C10: hostile peers cannot crash, hang or exhaust the process.

use super::t;
use crate::alloc::peak;
use crate::net::{net, Seg};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::{hash_str, Rng};
use crate::{ensure, vio};
use bip324::io::ProtocolError;
use bip324::{Error, PacketType};

/// Three times the allocation limit, and a little for fixed costs.
const MEM: i64 = 3 * LIMIT as i64 + 500_000;

fn mem(p: i64, what: &str) -> CaseResult {
    ensure!(p <= MEM, "{what}: {p} bytes allocated at once, {}x the limit", p / LIMIT as i64);
    Ok(())
}

/// Bytes after the key which the peer makes up.
fn hostile_tail(r: &mut Rng, s: &RefSession, cfg: &PeerCfg) -> (Vec<u8>, u64) {
    let mut v = Vec::new();
    let mut d = s.keys.dirs(cfg.is_init).0;
    let k = r.below(9);
    let gl = *r.pick(&[0usize, 1, 16, 300, 4095]);
    let g = r.content(gl);
    match k {
        0 => {
            let n = r.below(9000);
            v = r.content(n);
        }
        1 => {
            v = g;
            v.extend_from_slice(&s.my_term);
            let n = r.below(200);
            v.extend(r.bytes(n));
        }
        2 => {
            // correctly announced lengths with junk
            v = g;
            v.extend_from_slice(&s.my_term);
            for _ in 0..1 + r.below(4) {
                let n = *r.pick(&[0usize, 1, 2, 15, 100, 3_999_997, 3_999_998, 4_000_013, 4_000_014, 8_388_608, 0xff_ffff]);
                v.extend_from_slice(&d.announce(n));
                let m = r.below(60);
                v.extend(r.bytes(m));
            }
        }
        3 => {
            // valid decoys, any header, then a surprise
            v.extend_from_slice(&g);
            v.extend_from_slice(&s.my_term);
            for i in 0..r.below(60) {
                let n = r.small_size();
                let m = r.content(n);
                v.extend(d.packet(0x80 | r.u8(), &m, if i == 0 { &g } else { &[] }));
            }
            v.extend_from_slice(&d.announce(0xff_ffff));
        }
        4 => {
            // tag only packets of any announced size
            v.extend_from_slice(&g);
            v.extend_from_slice(&s.my_term);
            v.extend_from_slice(&d.announce(0));
            v.extend([0u8; 17]);
        }
        5 => {
            for _ in 0..300 {
                let n = 1 + r.below(15);
                v.extend_from_slice(&s.my_term[..n]);
            }
        }
        6 => {
            v.extend_from_slice(&s.their_term);
            v.extend_from_slice(&s.my_term);
        }
        7 => {
            // handshake completes with a strange version packet
            v.extend_from_slice(&g);
            v.extend_from_slice(&s.my_term);
            let n = *r.pick(&[0usize, 1, 3000, 100_000]);
            let m = r.content(n);
            v.extend(d.packet(r.u8() & 0x7f, &m, &g));
            let k = r.below(4);
            for _ in 0..k {
                let n = *r.pick(&[0usize, 5, 4_000_014, 0xff_ffff, 20]);
                v.extend_from_slice(&d.announce(n));
                let m = r.below(40);
                v.extend(r.bytes(m));
            }
        }
        _ => {}
    }
    (v, k as u64)
}

fn hostile(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let r = &mut c.rng;
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = match r.below(4) {
            0 => Seg::All,
            1 => Seg::Fixed(1),
            2 => Seg::Random(300),
            _ => Seg::Random(6000),
        };
        g.eof = r.coin();
        if !g.eof && r.chance(1, 3) {
            g.end_err = Some(std::io::ErrorKind::ConnectionReset);
        }
        g.max_ops = 3_000_000;
    }
    let seed = r.u64();
    let raw = r.chance(1, 6);
    let cfg2 = cfg.clone();
    let shape = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let sh = shape.clone();
    let _p = attach(
        &n,
        cfg,
        Some(Box::new(move |v, _, s| {
            let mut r = Rng::new(seed);
            if raw {
                let n = r.below(10_000);
                return r.content(n);
            }
            let mut k: Vec<u8> = v[..64].to_vec();
            let (t, h) = hostile_tail(&mut r, s, &cfg2);
            sh.store(h + 1, std::sync::atomic::Ordering::SeqCst);
            k.extend(t);
            k
        })),
    );
    let what = format!("{kind:?} {role:?} hostile handshake");
    let (res, p) = peak(|| Conn::open(kind, MAGIC, role, None, None, &n));
    mem(p, &what)?;
    let mut seen = match &res {
        Ok(_) => "Ok".to_string(),
        Err(e) => err_class(e),
    };
    if let Ok(mut conn) = res {
        for _ in 0..8 {
            let (x, p) = peak(|| conn.read());
            mem(p, "hostile session read")?;
            match x {
                Ok(p) => vio!("hostile session bytes delivered as {} bytes", p.contents().len()),
                Err(e) => seen = err_class(&e),
            }
            c.local.evals += 1;
        }
        c.count("hostile_sessions", 1);
    }
    c.count("hostile_handshakes", 1);
    let h = shape.load(std::sync::atomic::Ordering::SeqCst);
    c.sig(&[c.idx % 4, h, hash_str(&seen)]);
    c.eval();
    c.sample(|| format!("{what} shape {h}: {seen}, peak {p} bytes"));
    Ok(())
}

/// Low-level state machine fed with anything.
fn low(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let r = &mut c.rng;
    let secret = rand_secret(r);
    let cfg = PeerCfg::new(r, role);
    let mut out = Vec::new();
    let seed = r.u64();
    let raw = r.chance(1, 4);
    let (o, p) = {
        let cfg = cfg.clone();
        let mut done: Option<Vec<u8>> = None;
        peak(|| {
            low_handshake(r, MAGIC, role, secret, None, None, &mut out, move |sent| {
                crate::alloc::unmeasured(|| {
                    if let Some(d) = &done {
                        return d.clone();
                    }
                    let mut r = Rng::new(seed);
                    let v = if raw {
                        let n = r.below(9000);
                        r.content(n)
                    } else {
                        let s = session_for(&cfg, sent[..64].try_into().unwrap());
                        let mut v = cfg.enc.to_vec();
                        v.extend(hostile_tail(&mut r, &s, &cfg).0);
                        v
                    };
                    done = Some(v.clone());
                    v
                })
            })
        })
    };
    mem(p, "low-level hostile handshake")?;
    c.sig(&[10, role_init(role) as u64, hash_str(&o.class())]);
    c.count("hostile_low_handshakes", 1);
    // arbitrary inputs to the ciphers
    let r = &mut c.rng;
    let (mut cs, _) = low_session(r, role);
    for _ in 0..20 {
        let l: [u8; 3] = r.arr();
        let n = cs.inbound().decrypt_packet_len(l);
        ensure!((17..=17 + 0xff_ffff).contains(&n), "decrypt_packet_len gives {n}");
        let z = *r.pick(&[0usize, 1, 15, 16, 17, 18, 100, 1000]);
        let b = r.content(z);
        let e = r.below(3);
        if low_decrypt(cs.inbound(), &b, e, None).is_ok() {
            vio!("junk decrypts");
        }
        c.local.evals += 1;
    }
    Ok(())
}

/// Correctly encrypted packets of boundary sizes in a session and in the handshake.
fn limits(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let phase = (c.idx / 4) % 2;
    const SIZES: [usize; 14] = [
        3_999_990, 3_999_996, 3_999_997, 4_000_000, 4_000_012, 4_000_013, 4_000_014, 4_000_015,
        4_000_030, 4_000_031, 8_000_000, 8_388_608, 16_777_214, 16_777_215,
    ];
    let size = SIZES[(c.idx / 8) as usize % SIZES.len()];
    let r = &mut c.rng;
    let n = net(r.u64());
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        if r.coin() {
            g.rseg = Seg::Random(1 << 20);
        }
    }
    let mut cfg = PeerCfg::new(r, role);
    let header = *r.pick(&[0u8, 0x80]);
    if phase == 0 {
        // handshake: a decoy of that size, or the version packet itself
        let as_version = r.coin();
        let big = Pkt {
            header: if as_version { 0 } else { 0x80 },
            contents: vec![3; size],
        };
        cfg.handshake = if as_version { vec![big] } else { vec![big, pkt(0, b"")] };
        let _p = attach(&n, cfg, None);
        let (res, p) = peak(|| Conn::open(kind, MAGIC, role, None, None, &n));
        let what = format!("{kind:?} {role:?}: handshake packet with {size} bytes of contents");
        mem(p, &what)?;
        match res {
            Ok(_) => ensure!(size < 4_000_014, "{what}: accepted"),
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {
                // header, contents and tag up to the limit are certainly acceptable
                ensure!(size > 3_999_997, "{what}: refused")
            }
            Err(e) => vio!("{what}: {}", err_class(&e)),
        }
        c.count("handshake_limit_packets", 1);
    } else {
        let contents = vec![3u8; size];
        let (mut conn, p) = established(kind, role, cfg, None, None, &n);
        let mut s = take_session(&p);
        let b = s.send.packet(header, &contents, &[]);
        n.lock().unwrap().push(&b);
        let (res, p) = peak(|| conn.read());
        let what = format!("{kind:?} {role:?}: session packet with {size} bytes of contents");
        mem(p, &what)?;
        match res {
            Ok(p) => {
                ensure!(size <= 4_000_013, "{what}: accepted");
                ensure!(p.contents() == &contents[..] && p.packet_type() == ptype(header), "{what}: altered");
                c.count("session_limit_accepted", 1);
            }
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {
                ensure!(size > 4_000_013, "{what}: refused");
                c.count("session_limit_refused", 1);
            }
            Err(e) => vio!("{what}: {}", err_class(&e)),
        }
        // the allocating decryption
        let (mut cs, mut s) = low_session(&mut c.rng, role);
        let b = s.send.packet(header, &contents, &[]);
        cs.inbound().decrypt_packet_len(b[..3].try_into().unwrap());
        let (res, p) = peak(|| cs.inbound().decrypt_to_vec(&b[3..], None));
        mem(p, "decrypt_to_vec")?;
        match res {
            Ok((t, x)) => ensure!(
                size <= 4_000_013 && x[1..] == contents[..] && (t == PacketType::Decoy) == (header != 0),
                "decrypt_to_vec of {size} bytes: accepted"
            ),
            Err(Error::PacketTooBig) => ensure!(size > 4_000_013, "decrypt_to_vec of {size} bytes refused"),
            Err(e) => vio!("decrypt_to_vec of {size} bytes: {e:?}"),
        }
    }
    c.sig(&[c.idx % 8, size as u64]);
    c.eval();
    Ok(())
}

/// Announcements only: the decision is made on the announced length.
fn announced(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let r = &mut c.rng;
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let cfg = PeerCfg::new(r, role);
    let (mut conn, p) = established(kind, role, cfg, None, None, &n);
    let mut s = take_session(&p);
    let mut refused = 0;
    for _ in 0..12 {
        let size = match r.below(4) {
            0 => r.range(4_000_014, 0xff_ffff),
            1 => 4_000_014,
            2 => 0xff_ffff,
            _ => 4_000_014 + r.below(40),
        };
        let a = s.send.announce(size);
        n.lock().unwrap().push(&a);
        let (res, p) = peak(|| conn.read());
        mem(p, "announced length")?;
        match res {
            Err(ProtocolError::Internal(Error::PacketTooBig)) => refused += 1,
            Err(e) => vio!("{kind:?}: announced {size} bytes of contents: {}, expected the too-big error", err_class(&e)),
            Ok(_) => vio!("announcement delivered"),
        }
        c.local.evals += 1;
    }
    // the largest acceptable one, never completed
    let a = s.send.announce(4_000_013);
    let some = r.bytes(1000);
    {
        let mut g = n.lock().unwrap();
        g.push(&a);
        g.push(&some);
        g.eof = true;
    }
    let (res, p) = peak(|| conn.read());
    mem(p, "announced length")?;
    match res {
        Err(ProtocolError::Io(..)) => {}
        Err(e) => vio!("{kind:?}: announced 4000013 bytes, then end of stream: {}", err_class(&e)),
        Ok(_) => vio!("incomplete packet delivered"),
    }
    c.count("announcements_refused", refused);
    c.sig(&[c.idx % 4, 77]);
    Ok(())
}

const CHUNK: usize = 1 << 16;
const TOO_BIG: usize = 4_000_014;

/// Every length above the limit a peer can announce in a session.
fn every_announcement(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let from = TOO_BIG + (c.idx / 2) as usize * CHUNK;
    let to = (from + CHUNK).min(1 << 24);
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let cfg = PeerCfg::new(r, role);
    let (mut conn, p) = established(kind, role, cfg, None, None, &n);
    let mut s = take_session(&p);
    let mut bytes = Vec::new();
    for size in from..to {
        bytes.extend_from_slice(&s.send.announce(size));
    }
    n.lock().unwrap().push(&bytes);
    let (res, p) = peak(|| -> CaseResult {
        for size in from..to {
            match conn.read() {
                Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
                Err(e) => vio!("{kind:?}: announced {size} bytes of contents: {}, expected the too-big error", err_class(&e)),
                Ok(_) => vio!("announcement delivered"),
            }
        }
        Ok(())
    });
    res?;
    mem(p, "announced lengths")?;
    let k = (to - from) as u64;
    c.evals(k);
    c.count("announcements_refused", k);
    c.sig(&[c.idx, 78]);
    Ok(())
}

/// Oversized announcements during the handshake, after any garbage and decoys.
fn announced_in_handshake(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let r = &mut c.rng;
    let cfg = PeerCfg::new(r, role);
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let size = match r.below(4) {
        0 => r.range(TOO_BIG, 0xff_ffff),
        1 => TOO_BIG + r.below(40),
        2 => 0xff_ffff - r.below(40),
        _ => ((1usize << r.range(22, 24)) + r.below(3) - 1).clamp(TOO_BIG, 0xff_ffff),
    };
    let before = r.below(3);
    let cfg2 = cfg.clone();
    let seed = r.u64();
    let _p = attach(
        &n,
        cfg,
        Some(Box::new(move |v, _, s| {
            let mut r = Rng::new(seed);
            let mut d = s.keys.dirs(cfg2.is_init).0;
            let gl = *r.pick(&[0usize, 1, 100, 4095]);
            let g = r.bytes(gl);
            let mut v: Vec<u8> = v[..64].to_vec();
            v.extend_from_slice(&g);
            v.extend_from_slice(&s.my_term);
            for i in 0..before {
                let n = r.small_size();
                let m = r.content(n);
                v.extend(d.packet(0x80, &m, if i == 0 { &g } else { &[] }));
            }
            v.extend_from_slice(&d.announce(size));
            v
        })),
    );
    let (res, p) = peak(|| Conn::open(kind, MAGIC, role, None, None, &n));
    mem(p, "announced length in the handshake")?;
    match res {
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
        Err(e) => vio!("{kind:?}: announced {size} bytes of contents in the handshake: {}, expected the too-big error", err_class(&e)),
        Ok(_) => vio!("handshake succeeded on an announcement"),
    }
    c.eval();
    c.count("announcements_refused_in_handshakes", 1);
    c.sig(&[c.idx % 4, before as u64, size as u64 >> 16]);
    Ok(())
}

/// Many decoys, large and small, do not accumulate memory.
fn floods(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let r = &mut c.rng;
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let mut cfg = PeerCfg::new(r, role);
    let large = c.idx % 8 >= 4;
    let k = match c.idx {
        _ if large => 6,
        // enough to exhaust any stack
        8..12 => 200_000,
        _ => 6000,
    };
    let mut hs: Vec<Pkt> = (0..k)
        .map(|_| {
            let z = match k {
                6 => 3_999_997,
                200_000 => 0,
                _ => r.below(300),
            };
            pkt(0x80, &vec![1; z])
        })
        .collect();
    hs.push(pkt(0, b""));
    cfg.handshake = hs;
    for _ in 0..if large { 3 } else { 300 } {
        let z = if large { 4_000_013 } else { r.below(100) };
        cfg.session.push(pkt(0x80, &vec![2; z]));
    }
    let m = cfg.session.len();
    let _p = attach(&n, cfg, None);
    let (res, p) = peak(|| Conn::open(kind, MAGIC, role, None, None, &n));
    mem(p, "handshake decoys")?;
    let mut conn = match res {
        Ok(x) => x,
        Err(e) => vio!("{kind:?}: handshake with {k} decoys: {}", err_class(&e)),
    };
    for i in 0..m {
        let (res, p) = peak(|| conn.read().map(|p| p.contents().len()));
        mem(p, "session packets")?;
        if let Err(e) = res {
            vio!("{kind:?}: session packet {i}: {}", err_class(&e));
        }
        c.local.evals += 1;
    }
    c.count("flood_packets", (k + m) as u64);
    c.sig(&[c.idx % 8]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C10",
        level: "exploration",
        rule: "Hostile byte streams (random, structured, correctly encrypted with the session keys, oversized announcements, floods) against the real handshake and readers, under a panic hook with overflow checks and debug assertions on, a counting allocator (peak per call at most 3x the limit), an operation budget that detects loops, and exact expectations at the size limit. Distinct = different interface, shape of the stream and outcome.",
        assumptions: vec![
            "In the handshake, packets of 3,999,998 to 4,000,013 content bytes may be accepted or refused.",
            "Memory is measured as peak bytes requested from the allocator by the calling thread.",
        ],
        families: vec![
            fam("hostile", t(tier, 24_000, 300_000), hostile),
            fam("low", t(tier, 9_000, 100_000), low),
            fam("limits", t(tier, 112, 448), limits),
            fam("announced", t(tier, 600, 5_000), announced),
            fam("every_announcement", 2 * ((1 << 24) - TOO_BIG).div_ceil(CHUNK) as u64, every_announcement),
            fam("announced_in_handshake", t(tier, 4000, 100_000), announced_in_handshake),
            fam("floods", t(tier, 16, 160), floods),
        ],
        require: vec!["hostile_handshakes", "hostile_sessions", "hostile_low_handshakes", "handshake_limit_packets", "session_limit_accepted", "session_limit_refused", "announcements_refused", "announcements_refused_in_handshakes", "flood_packets"],
    }
}

