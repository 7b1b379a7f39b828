//! C06: garbage is delimited exactly and bounded.

use super::t;
use crate::net::{net, Op, Seg};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::Rng;
use crate::{ensure, vio};
use bip324::io::ProtocolError;
use bip324::{Error, GarbageResult, Handshake, Initialized, ReceivedKey, Role, SentVersion};

const BOUND: usize = 4095 + 16;

/// The low-level handshake after send_version, with a reference session.
fn at_garbage(role: Role, secret: [u8; 32], cfg: &PeerCfg) -> (Handshake<SentVersion>, RefSession) {
    let mut kb = [0u8; 64];
    let h = initialized(MAGIC, role, secret).send_key(None, &mut kb).unwrap();
    let s = session_for(cfg, &kb);
    let h = h.receive_key(cfg.enc).unwrap();
    let mut vb = vec![0u8; Handshake::<ReceivedKey>::send_version_len(None)];
    (h.send_version(&mut vb, None).unwrap(), s)
}

/// Garbage of a given length from fragments of the terminator, never completing it early.
fn garbage(r: &mut Rng, len: usize, term: &[u8; 16]) -> (u64, Vec<u8>) {
    let pattern = r.below(9) as u64;
    let mut g = Vec::new();
    match pattern {
        0 => g = r.bytes(len),
        1 => {
            while g.len() < len {
                let k = 1 + r.below(15);
                g.extend_from_slice(&term[..k]);
            }
        }
        2 => {
            while g.len() < len {
                g.extend_from_slice(&term[..15]);
            }
        }
        3 => {
            while g.len() < len {
                let k = 1 + r.below(15);
                g.extend_from_slice(&term[16 - k..]);
            }
        }
        4 => {
            while g.len() < len {
                let mut x = *term;
                x[r.below(16)] ^= 1 << r.below(8);
                g.extend_from_slice(&x);
            }
        }
        5 => g = vec![term[0]; len],
        6 => g = vec![0; len],
        7 => {
            // ends right before the terminator with the longest possible fragment
            g = r.bytes(len);
            let k = (1 + r.below(15)).min(len);
            let n = g.len();
            g[n - k..].copy_from_slice(&term[..k]);
        }
        _ => {
            while g.len() < len {
                g.push(term[15]);
                g.extend_from_slice(&term[..8]);
            }
        }
    }
    g.truncate(len);
    (pattern, g)
}

fn first_term(b: &[u8], term: &[u8; 16]) -> Option<usize> {
    b.windows(16).position(|w| w == term)
}

/// Expected outcome for a buffer.
#[derive(Debug, PartialEq)]
enum Want {
    Found(usize),
    More,
    Fail,
}
fn want(b: &[u8], term: &[u8; 16]) -> Want {
    match first_term(&b[..b.len().min(BOUND)], term) {
        Some(i) => Want::Found(i + 16),
        None if b.len() >= BOUND => Want::Fail,
        None => Want::More,
    }
}

/// One garbage length: whole buffer, growing buffer, trailing data.
fn lengths(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let len = (c.idx / 2) as usize % 4096;
    let cfg = PeerCfg::new(r, role);
    let secret = rand_secret(r);
    let (mut h, s) = at_garbage(role, secret, &cfg);
    let (pattern, g) = garbage(r, len, &s.my_term);
    let mut b = g.clone();
    b.extend_from_slice(&s.my_term);
    let total = first_term(&b, &s.my_term).unwrap() + 16;
    let n = r.below(40);
    let tail = if r.coin() { s.my_term.to_vec() } else { r.bytes(n) };
    b.extend_from_slice(&tail);
    // growing prefixes: all near the interesting points, random elsewhere
    let mut have = 0;
    loop {
        let w = want(&b[..have], &s.my_term);
        match h.receive_garbage(&b[..have]) {
            Ok(GarbageResult::NeedMoreData(n)) => {
                ensure!(
                    w == Want::More,
                    "{role:?}, {len} bytes of garbage (pattern {pattern}): more data asked for at {have} bytes, expected {w:?}"
                );
                h = n;
            }
            Ok(GarbageResult::FoundGarbage { consumed_bytes, handshake }) => {
                ensure!(
                    w == Want::Found(consumed_bytes) && consumed_bytes == total,
                    "{role:?}, {len} bytes of garbage (pattern {pattern}): consumed {consumed_bytes} of {have}, expected {w:?}"
                );
                // the rest must authenticate with exactly that garbage
                let mut s2 = s.clone();
                let mut p = s2.send.packet(0, b"", &b[..total - 16]);
                let mut hs = handshake;
                let k = hs.decrypt_packet_len(p[..3].try_into().unwrap()).unwrap();
                ensure!(k == 17, "length {k}");
                if hs.receive_version(&mut p[3..]).is_err() {
                    vio!("{len} bytes of garbage not authenticated as sent");
                }
                break;
            }
            Err(e) => vio!("{role:?}, {len} bytes of garbage (pattern {pattern}): {e:?} at {have} bytes, expected {w:?}"),
        }
        c.local.evals += 1;
        if have == b.len() {
            vio!("terminator not found");
        }
        let near = have + 40 > total;
        have += if near { 1 } else { (1 + r.below(600)).min(total.saturating_sub(have + 20).max(1)) };
        have = have.min(b.len());
    }
    // everything at once: whatever follows the first terminator is not garbage
    let (h, mut s3) = at_garbage(role, secret, &cfg);
    let mut all = b[..total].to_vec();
    let mut follow = r.bytes(60);
    let at = r.below(44);
    follow.splice(at..at + 16, s.my_term);
    let first = s3.send.packet_showing(0x80, &follow, at, &s.my_term, &b[..total - 16]);
    all.extend_from_slice(&first);
    match h.receive_garbage(&all) {
        Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => ensure!(
            consumed_bytes == total,
            "{role:?}, {len} bytes of garbage (pattern {pattern}): consumed {consumed_bytes} with packets behind, expected {total}"
        ),
        Ok(_) => vio!("{role:?}, {len} bytes of garbage (pattern {pattern}): terminator overlooked with packets behind"),
        Err(e) => vio!("{role:?}, {len} bytes of garbage (pattern {pattern}): {e:?} with packets behind"),
    }
    c.local.evals += 1;
    c.count("garbage_strings", 1);
    c.sig(&[len as u64, pattern, role_init(role) as u64]);
    c.eval();
    Ok(())
}

/// No terminator within the bound.
fn missing(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let cfg = PeerCfg::new(r, role);
    let secret = rand_secret(r);
    let (mut h, s) = at_garbage(role, secret, &cfg);
    let extra = r.below(400);
    let (pattern, mut b) = garbage(r, BOUND + extra, &s.my_term);
    // a terminator that would complete only beyond the bound
    if r.coin() {
        let at = 4096 + r.below(16.min(extra + 1));
        for (i, x) in s.my_term.iter().enumerate() {
            if at + i < b.len() {
                b[at + i] = *x;
            } else {
                b.push(*x);
            }
        }
    }
    if first_term(&b[..BOUND], &s.my_term).is_some() {
        return Ok(());
    }
    let mut sizes: Vec<usize> = vec![0, 15, 16, 4094, 4095, 4096, 4109, 4110, BOUND];
    sizes.push(r.range(0, BOUND));
    sizes.sort();
    for n in sizes {
        match h.receive_garbage(&b[..n]) {
            Ok(GarbageResult::NeedMoreData(x)) => {
                ensure!(n < BOUND, "{role:?}: {n} bytes without terminator and more asked for");
                h = x;
            }
            Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => {
                vio!("{role:?}: terminator found at {consumed_bytes} in {n} bytes without one (pattern {pattern})")
            }
            Err(Error::NoGarbageTerminator) => {
                ensure!(n >= BOUND, "{role:?}: given up after {n} bytes");
                break;
            }
            Err(e) => vio!("{role:?}: {e:?} after {n} bytes"),
        }
        c.local.evals += 1;
    }
    // also when everything arrives at once
    let (h, s2) = at_garbage(role, secret, &cfg);
    assert_eq!(s2.my_term, s.my_term);
    match h.receive_garbage(&b) {
        Err(Error::NoGarbageTerminator) => {}
        Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => {
            vio!("{role:?}: terminator accepted at {consumed_bytes}, beyond the bound")
        }
        _ => vio!("{role:?}: {} bytes without terminator not refused", b.len()),
    }
    c.count("missing_terminators", 1);
    c.sig(&[pattern, extra as u64, role_init(role) as u64]);
    c.eval();
    Ok(())
}

/// The io interfaces: exact bounds, how much is read, consumed bytes.
fn wire(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let mut cfg = PeerCfg::new(r, role);
    let len = match r.below(6) {
        0 => 0,
        1 => 4095,
        2 => r.range(4080, 4095),
        3 => r.below(4096),
        _ => *r.pick(&[1usize, 15, 16, 17, 239, 240, 241, 255, 256, 257, 512, 1000]),
    };
    // Patterns need the terminator, known only later: the garbage is replaced in the mangle hook,
    // so build from the session inside.
    let seed = r.u64();
    let good = r.chance(2, 3);
    cfg.session = vec![pkt(0, b"after"), pkt(0x80, b"")];
    let n = net(r.u64());
    {
        let mut g = n.lock().unwrap();
        g.rseg = match r.below(4) {
            0 => Seg::All,
            1 => Seg::Fixed(1 + r.below(300)),
            2 => Seg::Fixed(1),
            _ => Seg::Random(300),
        };
    }
    let cfg2 = cfg.clone();
    let exact = r.coin();
    let mangle: Mangle = Box::new(move |_, _, s| {
        let mut r = Rng::new(seed);
        let s = s.clone();
        // the session was advanced by the transcript; recompute the packets at their positions
        let mut send = s.keys.dirs(cfg2.is_init).0;
        let mut v = cfg2.enc.to_vec();
        if good {
            let (_, g) = garbage(&mut r, len, &s.my_term);
            let mut gt = g;
            gt.extend_from_slice(&s.my_term);
            let k = first_term(&gt, &s.my_term).unwrap();
            let g = gt[..k].to_vec();
            v.extend_from_slice(&g);
            v.extend_from_slice(&s.my_term);
            let mut aad = g;
            for _ in 0..r.below(3) {
                // packets that look like another terminator on the wire
                let n = 16 + r.below(300);
                let at = r.below(n - 15);
                v.extend(send.packet_showing(0x80, &vec![0; n], at, &s.my_term, &aad));
                aad.clear();
            }
            let n = 16 + r.below(30);
            let at = r.below(n - 15);
            if r.coin() {
                v.extend(send.packet(0, b"", &aad));
            } else {
                v.extend(send.packet_showing(0, &vec![0; n], at, &s.my_term, &aad));
            }
            for p in &cfg2.session {
                v.extend(send.packet(p.header, &p.contents, &[]));
            }
        } else {
            let n = if exact { BOUND } else { BOUND + 1 + r.below(2000) };
            loop {
                let (_, g) = garbage(&mut r, n, &s.my_term);
                if first_term(&g, &s.my_term).is_none() {
                    v.extend_from_slice(&g);
                    break;
                }
            }
        }
        v
    });
    let _p = attach(&n, cfg.clone(), Some(mangle));
    let res = Conn::open(kind, MAGIC, role, None, None, &n);
    let g = n.lock().unwrap();
    if good {
        drop(g);
        let mut conn = match res {
            Ok(x) => x,
            Err(e) => vio!("{kind:?} {role:?}: {len} bytes of garbage: handshake fails: {}", err_class(&e)),
        };
        for (k, w) in cfg.session.iter().enumerate() {
            match conn.read() {
                Ok(p) => ensure!(
                    p.contents() == &w.contents[..] && p.packet_type() == ptype(w.header),
                    "{kind:?}: packet {k} after {len} bytes of garbage differs"
                ),
                Err(e) => vio!("{kind:?}: packet {k} after {len} bytes of garbage: {}", err_class(&e)),
            }
        }
        c.count("wire_garbage_ok", 1);
    } else {
        match res {
            Err(ProtocolError::Internal(Error::NoGarbageTerminator)) => {}
            Err(e) => vio!(
                "{kind:?} {role:?}: {} bytes without terminator (exactly the bound: {exact}): {} instead of the terminator error",
                g.in_off - 64,
                err_class(&e)
            ),
            Ok(_) => vio!("{kind:?} {role:?}: handshake without terminator completes"),
        }
        // It stops as soon as it has that many bytes.
        let taken = g.in_off - 64;
        let last = g
            .ops
            .iter()
            .rev()
            .find_map(|o| match o {
                Op::Read { got, .. } => Some(*got),
                _ => None,
            })
            .unwrap_or(0);
        ensure!(
            taken >= BOUND && taken - last < BOUND,
            "{kind:?} {role:?}: gave up after {taken} bytes (last read {last}), bound {BOUND}"
        );
        c.count("wire_garbage_refused", 1);
    }
    c.sig(&[c.idx % 4, len as u64, good as u64, exact as u64]);
    c.eval();
    Ok(())
}

/// The sending side.
fn sender(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let via = (c.idx / 2) % 3;
    let len = match r.below(6) {
        0 => 4095,
        1 => 4096,
        2 => *r.pick(&[4097usize, 4100, 5000, 8192, 65_536]),
        3 => r.below(4096),
        _ => r.below(40),
    };
    let g = r.content(len);
    let ok = len <= 4095;
    if via == 0 {
        let secret = rand_secret(r);
        let h = initialized(MAGIC, role, secret);
        let need = Handshake::<Initialized>::send_key_len(Some(&g));
        let mut b = vec![0xa5u8; need + 7];
        match h.send_key(Some(&g), &mut b) {
            Ok(_) => {
                ensure!(ok, "send_key accepts {len} bytes of garbage");
                ensure!(
                    need == 64 + len && b[64..64 + len] == g[..] && b[need..] == [0xa5; 7],
                    "send_key: garbage not right behind the key"
                );
            }
            Err(Error::TooMuchGarbage) => {
                ensure!(!ok, "send_key refuses {len} bytes of garbage");
                ensure!(b.iter().all(|x| *x == 0xa5), "refused garbage partly written");
            }
            Err(e) => vio!("send_key with {len} bytes of garbage: {e:?}"),
        }
    } else {
        let kind = KINDS[(via - 1) as usize];
        let cfg = PeerCfg::new(r, role);
        let n = net(r.u64());
        let p = attach(&n, cfg, None);
        let res = Conn::open(kind, MAGIC, role, Some(g.clone()), None, &n);
        let out = n.lock().unwrap().out.clone();
        match res {
            Ok(_) => {
                ensure!(ok, "{kind:?}: {len} bytes of garbage accepted");
                ensure!(out.len() >= 64 + len && out[64..64 + len] == g[..], "{kind:?}: garbage not right behind the key");
                let s = take_session(&p);
                match parse_sent(&out, &s) {
                    Ok(x) => ensure!(x.garbage == g, "{kind:?}: garbage differs"),
                    Err(e) => vio!("{kind:?} {len} bytes of garbage: {e}"),
                }
            }
            Err(ProtocolError::Internal(Error::TooMuchGarbage)) => {
                ensure!(!ok, "{kind:?}: {len} bytes of garbage refused");
                ensure!(out.is_empty(), "{kind:?}: {} bytes sent although the garbage was refused", out.len());
            }
            Err(e) => vio!("{kind:?}: {len} bytes of garbage: {}", err_class(&e)),
        }
    }
    c.count(if ok { "garbage_sent" } else { "garbage_send_refused" }, 1);
    c.sig(&[c.idx % 6, len as u64]);
    c.eval();
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C06",
        level: "exploration",
        rule: "Every garbage length 0..=4095 (in both roles) with one of nine patterns built from pieces of the session's own terminator, presented to the real receiver in growing prefixes; strings without a terminator around the bound; the same over the sync and async interfaces with the transport's operation log showing how much was read; and the sending side. Distinct = different length, pattern, role and interface.",
        assumptions: vec![],
        families: vec![
            fam("lengths", t(tier, 40_960, 327_680), lengths),
            fam("missing", t(tier, 7_500, 60_000), missing),
            fam("wire", t(tier, 15_000, 120_000), wire),
            fam("sender", t(tier, 6_000, 48_000), sender),
        ],
        require: vec!["garbage_strings", "missing_terminators", "wire_garbage_ok", "wire_garbage_refused", "garbage_sent", "garbage_send_refused"],
    }
}
