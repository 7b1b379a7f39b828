//! C07: the outcome does not depend on how the transport segments the bytes.

use super::t;
use crate::net::{net, Seg};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::{hash_bytes, hash_str, Rng};
use crate::{ensure, vio};
use bip324::Role;

/// A scenario is a pure function of its seed: only the segmentation varies.
#[derive(Clone)]
struct Scenario {
    cfg: PeerCfg,
    role: Role,
    garbage: Option<Vec<u8>>,
    decoys: OptDecoys,
    op: usize,
    seed: u64,
    reads: usize,
}

fn scenario(r: &mut Rng, role: Role) -> Scenario {
    let mut cfg = PeerCfg::varied(r, role);
    for q in 0..r.below(7) {
        let n = r.small_size();
        let mut m = r.content(n);
        if let Some(x) = m.first_mut() {
            *x = q as u8;
        }
        cfg.session.push(pkt(*r.pick(&[0u8, 0, 0x80]), &m));
    }
    let gl = r.below(20);
    Scenario {
        reads: cfg.session.len() + 1,
        cfg,
        role,
        garbage: if r.coin() { None } else { Some(r.bytes(gl)) },
        decoys: if r.coin() { None } else { Some(vec![r.bytes(5)]) },
        op: r.below(12),
        seed: r.u64(),
    }
}

/// Deterministic alteration, positioned relative to the layout.
fn mangle(op: usize, seed: u64) -> Mangle {
    Box::new(move |mut v, l, s| {
        let mut r = Rng::new(seed);
        let hs_end = *l.hs.last().unwrap();
        match op {
            0 => {
                let at = r.below(v.len() + 1);
                v.truncate(at)
            }
            1 => {
                // after the terminator, so that the garbage area is the same in every run
                let at = l.term_end + r.below(v.len() - l.term_end);
                v[at] ^= 1 << r.below(8);
            }
            2 => {
                if l.garbage_end > 64 {
                    let at = 64 + r.below(l.garbage_end - 64);
                    v[at] ^= 1 << r.below(8);
                } else {
                    v.truncate(70);
                }
            }
            3 => {
                v.truncate(64);
                let k = *r.pick(&[4110usize, 4111, 4112, 5000]);
                v.extend(r.bytes(k));
            }
            4 => {
                let mut d = s.keys.dirs(s.my_term == s.keys.terms(true).0).0;
                // oversized announcement right after the terminator
                v.truncate(l.term_end);
                v.extend_from_slice(&d.announce(*r.pick(&[4_000_014usize, 0xff_ffff])));
                v.extend(r.bytes(30));
            }
            5 => {
                // a forged announcement and junk after the last packet
                let k = r.below(60);
                let x = r.bytes(k);
                let n = *r.pick(&[0usize, 5, 20, 43, 4_000_014, 0xff_ffff]);
                v.extend_from_slice(&s.send.clone().announce(n));
                v.extend(x);
            }
            6 => v.truncate(hs_end),
            7 => v.truncate(l.term_end + r.below(hs_end - l.term_end)),
            _ => {}
        }
        v
    })
}

#[derive(Clone, Debug)]
struct Transport {
    kind: Kind,
    seg: Seg,
    interrupt: usize,
    pending: usize,
    defer: bool,
    eof: bool,
}

#[derive(PartialEq, Debug, Clone)]
enum Got {
    Hs(String),
    Payload(bool, usize, u64),
    Err(String),
}

fn norm(e: &bip324::io::ProtocolError) -> String {
    // End of stream has a kind of its own in each interface (UnexpectedEof, ConnectionAborted).
    err_class(e)
        .replace("UnexpectedEof", "End")
        .replace("ConnectionAborted", "End")
}

fn run(s: &Scenario, tr: &Transport, seed: u64) -> (Vec<Got>, u64, u64) {
    let n = net(seed);
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = tr.seg.clone();
        g.wseg = match seed % 3 {
            0 => Seg::All,
            1 => Seg::Fixed(1 + (seed % 50) as usize),
            _ => Seg::Random(100),
        };
        g.eof = tr.eof;
        g.interrupt = tr.interrupt;
        g.pending = tr.pending;
        g.defer_wake = tr.defer;
    }
    let _p = attach(&n, s.cfg.clone(), Some(mangle(s.op, s.seed)));
    let mut out = Vec::new();
    match Conn::open(tr.kind, MAGIC, s.role, s.garbage.clone(), s.decoys.clone(), &n) {
        Err(e) => out.push(Got::Hs(norm(&e))),
        Ok(mut c) => {
            out.push(Got::Hs("Ok".into()));
            for _ in 0..s.reads {
                match c.read() {
                    Ok(p) => out.push(Got::Payload(
                        p.packet_type() == bip324::PacketType::Decoy,
                        p.contents().len(),
                        hash_bytes(p.contents()),
                    )),
                    Err(e) => {
                        out.push(Got::Err(norm(&e)));
                        break;
                    }
                }
            }
        }
    }
    let g = n.lock().unwrap();
    (out, g.reads, g.pendings + g.interrupts)
}

fn transport(r: &mut Rng, kind: Kind, eof: bool) -> Transport {
    let seg = match r.below(9) {
        0 => Seg::Fixed(1),
        1 => Seg::Fixed(2),
        2 => Seg::Fixed(1 + r.below(20)),
        3 => Seg::Random(5),
        4 => Seg::Random(300),
        5 => Seg::Random(5000),
        6 => {
            let mut c: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(5000)).collect();
            c.sort();
            Seg::Cuts(c)
        }
        7 => Seg::First(r.range(64, 4300)),
        _ => Seg::All,
    };
    Transport {
        kind,
        seg,
        interrupt: if kind == Kind::Sync { *r.pick(&[0usize, 10, 50, 90]) } else { 0 },
        pending: if kind == Kind::Async { *r.pick(&[0usize, 10, 50, 90, 100]) } else { 0 },
        defer: r.coin(),
        eof,
    }
}

fn expected(s: &Scenario) -> Option<Vec<Got>> {
    // for unaltered streams the full outcome is known
    if s.op < 8 {
        return None;
    }
    let mut v = vec![Got::Hs("Ok".into())];
    for p in &s.cfg.session {
        v.push(Got::Payload(
            p.header & 0x80 != 0,
            p.contents.len(),
            hash_bytes(&p.contents),
        ));
    }
    Some(v)
}

fn compare(c: &mut Case, s: &Scenario, base: &[Got], tr: &Transport, got: &[Got]) -> CaseResult {
    if base != got {
        let k = base.iter().zip(got).position(|(a, b)| a != b).unwrap_or(base.len().min(got.len()));
        vio!(
            "{:?}: {} garbage bytes, {} handshake packets, alteration {}: with {tr:?} step {k} gives {:?}, with everything at once {:?}",
            s.role,
            s.cfg.garbage.len(),
            s.cfg.handshake.len(),
            s.op,
            got.get(k),
            base.get(k)
        );
    }
    c.eval();
    Ok(())
}

fn baseline(s: &Scenario, eof: bool) -> Result<Vec<Got>, crate::run::Fail> {
    let tr = Transport {
        kind: Kind::Sync,
        seg: Seg::All,
        interrupt: 0,
        pending: 0,
        defer: false,
        eof,
    };
    let (b, ..) = run(s, &tr, 3);
    if let Some(e) = expected(s) {
        let n = e.len();
        ensure!(
            b.len() > n.saturating_sub(1) && b[..n] == e[..],
            "{:?}: honest stream of {} handshake and {} session packets at once: {:?}, expected {:?}",
            s.role,
            s.cfg.handshake.len(),
            s.cfg.session.len(),
            b,
            e
        );
    }
    Ok(b)
}

fn random(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let s = scenario(&mut c.rng, role);
    let eof = c.rng.coin();
    let base = baseline(&s, eof)?;
    c.sig(&[s.op as u64, hash_str(&format!("{:?}", base))]);
    for k in 0..10 {
        let kind = KINDS[k % 2];
        let tr = transport(&mut c.rng, kind, eof);
        let seed = c.rng.u64();
        let (got, reads, np) = run(&s, &tr, seed);
        compare(c, &s, &base, &tr, &got)?;
        c.count("transport_reads", reads);
        c.count("not_ready_or_interrupted", np);
        c.count("segmentations", 1);
        if got.first() != Some(&Got::Hs("Ok".into())) {
            c.count("failed_handshakes_compared", 1);
        } else {
            c.count("sessions_compared", 1);
        }
    }
    c.sample(|| format!("{role:?} alteration {}: {base:?}", s.op));
    Ok(())
}

/// Every single cut of one stream, and pairs of cuts around the end of the garbage.
fn cuts(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let kind = KINDS[((c.idx / 2) % 2) as usize];
    let mut s = scenario(&mut c.rng, role);
    s.op = *c.rng.pick(&[8usize, 8, 8, 1, 5, 7]);
    let k = *c.rng.pick(&[0usize, 1, 7, 100, 239, 240, 241, 256]);
    s.cfg.garbage = c.rng.bytes(k);
    s.cfg.handshake = vec![pkt(0, b"")];
    if c.rng.coin() {
        s.cfg.handshake.insert(0, pkt(0x80, b"abc"));
    }
    s.cfg.session.truncate(3);
    for p in &mut s.cfg.session {
        p.contents.truncate(40);
    }
    s.reads = s.cfg.session.len() + 1;
    let base = baseline(&s, true)?;
    let total = 64 + k + 16 + 200;
    let step = if k > 50 { 1 + c.rng.below(3) } else { 1 };
    let mut list: Vec<Vec<usize>> = (1..total).step_by(step).map(|p| vec![p]).collect();
    for a in 64 + k..64 + k + 22 {
        for b in a + 1..64 + k + 24 {
            if c.rng.chance(1, 4) {
                list.push(vec![a, b]);
            }
        }
    }
    for cut in list {
        let tr = Transport {
            kind,
            seg: Seg::Cuts(cut.clone()),
            interrupt: 0,
            pending: if kind == Kind::Async { 100 } else { 0 },
            defer: true,
            eof: true,
        };
        let (got, reads, _) = run(&s, &tr, 3);
        compare(c, &s, &base, &tr, &got)?;
        c.count("exhaustive_cuts", 1);
        c.count("transport_reads", reads);
        c.sig(&[c.idx, cut[0] as u64, cut.len() as u64]);
    }
    Ok(())
}

/// Interruption at each single read (blocking interface), including the garbage search.
fn interrupted(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let mut s = scenario(&mut c.rng, role);
    s.op = 9;
    s.cfg.garbage.truncate(700);
    s.cfg.session.truncate(3);
    s.reads = s.cfg.session.len() + 1;
    let base = baseline(&s, true)?;
    for at in 0..24u64 {
        for write in [false, true] {
            let n = net(1);
            {
                let mut g = n.lock().unwrap();
                g.eof = true;
                g.rseg = if at % 2 == 0 { Seg::All } else { Seg::Fixed(200) };
                let f = Some((at, crate::net::Fault::Err(std::io::ErrorKind::Interrupted)));
                if write {
                    g.wfault = f;
                    g.wseg = Seg::Fixed(40);
                } else {
                    g.rfault = f;
                }
            }
            let _p = attach(&n, s.cfg.clone(), Some(mangle(s.op, s.seed)));
            match Conn::open(Kind::Sync, MAGIC, role, s.garbage.clone(), s.decoys.clone(), &n) {
                Err(e) => vio!(
                    "{role:?}: {} {at} interrupted: handshake fails: {}",
                    if write { "write" } else { "read" },
                    err_class(&e)
                ),
                Ok(mut conn) => {
                    for (k, w) in base[1..base.len() - 1].iter().enumerate() {
                        match conn.read() {
                            Ok(p) => ensure!(
                                *w == Got::Payload(
                                    p.packet_type() == bip324::PacketType::Decoy,
                                    p.contents().len(),
                                    hash_bytes(p.contents())
                                ),
                                "read {k} differs after an interruption of read {at}"
                            ),
                            Err(e) => vio!("{role:?}: read {at} interrupted: packet {k}: {}", err_class(&e)),
                        }
                    }
                }
            }
            c.count("single_interruptions", 1);
            c.eval();
            c.sig(&[c.idx % 2, at, write as u64]);
        }
    }
    Ok(())
}

/// Long sessions in one burst, all segmentations.
fn burst(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let mut s = scenario(&mut c.rng, role);
    s.op = 9;
    let k = c.rng.range(230, 480);
    s.cfg.session = (0..k)
        .map(|q| {
            let z = c.rng.below(30);
            let mut m = c.rng.bytes(z);
            m.insert(0, q as u8);
            pkt(0, &m)
        })
        .collect();
    if c.rng.chance(1, 3) {
        let z = *c.rng.pick(&[65_536usize, 200_000, 1_000_000]);
        s.cfg.session[5].contents = c.rng.bytes(z);
    }
    s.reads = k;
    let base = baseline(&s, true)?;
    for kind in KINDS {
        let mut tr = transport(&mut c.rng, kind, true);
        if let Seg::Fixed(x) = &mut tr.seg {
            *x = (*x).max(3)
        }
        let seed = c.rng.u64();
        let (got, reads, np) = run(&s, &tr, seed);
        compare(c, &s, &base, &tr, &got)?;
        c.count("burst_packets", k as u64);
        c.count("transport_reads", reads);
        c.count("not_ready_or_interrupted", np);
        c.sig(&[c.idx % 2, k as u64, hash_str(&format!("{tr:?}"))]);
    }
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C07",
        level: "exploration",
        rule: "The same peer bytes (honest, truncated, altered, oversized, without terminator) are replayed to the real sync and async interfaces under different segmentations, interruptions and not-ready patterns; outcomes of the handshake and of each following read up to the first error are compared with delivery at once, and for honest streams with what the peer sent. Distinct = different outcome trace, cut positions or transport script.",
        assumptions: vec![
            "End of stream is one outcome although its I/O error kind differs between interfaces (UnexpectedEof / ConnectionAborted).",
            "Interruptions are retryable only for blocking transports.",
        ],
        families: vec![
            fam("random", t(tier, 6_000, 50_000), random),
            fam("cuts", t(tier, 96, 768), cuts),
            fam("interrupted", t(tier, 240, 1_920), interrupted),
            fam("burst", t(tier, 240, 2_000), burst),
        ],
        require: vec!["segmentations", "failed_handshakes_compared", "sessions_compared", "not_ready_or_interrupted", "exhaustive_cuts", "single_interruptions", "burst_packets"],
    }
}
