//! C04: tampered session traffic is never delivered.

use super::t;
use crate::net::{net, Seg};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::{first_diff, Rng};
use crate::{ensure, vio};
use bip324::{CipherSession, PacketType, Role};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Reader {
    Low(usize),
    Sync,
    Async,
}
const READERS: [Reader; 5] = [
    Reader::Low(0),
    Reader::Low(1),
    Reader::Low(2),
    Reader::Sync,
    Reader::Async,
];

enum Out {
    Ok(PacketType, Vec<u8>),
    Err,
    End,
}

/// Low-level receiver: consumes a stream packet by packet.
struct Low {
    c: CipherSession,
    entry: usize,
    pos: usize,
}
impl Low {
    fn next(&mut self, s: &[u8]) -> Out {
        if s.len() - self.pos < 3 {
            return Out::End;
        }
        let n = self
            .c
            .inbound()
            .decrypt_packet_len(s[self.pos..self.pos + 3].try_into().unwrap());
        self.pos += 3;
        if s.len() - self.pos < n {
            self.pos = s.len();
            return Out::End;
        }
        let b = &s[self.pos..self.pos + n];
        self.pos += n;
        match low_decrypt(self.c.inbound(), b, self.entry, None) {
            Ok((t, p)) => Out::Ok(t, p[1..].to_vec()),
            Err(_) => Out::Err,
        }
    }
}

/// A receiver of the real code together with what the sender sent.
struct Setup {
    low: Option<CipherSession>,
    conn: Option<(Conn, crate::net::Shared)>,
    reader: Reader,
    sess: RefSession,
}

/// `skip`: number of packets exchanged before (to reach re-keying).
fn setup(r: &mut Rng, reader: Reader, role: Role, skip: u64) -> Setup {
    match reader {
        Reader::Low(_) => {
            let (mut c, mut s) = low_session(r, role);
            for _ in 0..skip {
                let p = s.send.packet(0, b"x", &[]);
                c.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
                let mut b = [0u8; 2];
                if c.inbound().decrypt(&p[3..], &mut b, None).is_err() {
                    panic!("{}honest packet refused", crate::run::MONITOR);
                }
            }
            Setup {
                low: Some(c),
                conn: None,
                reader,
                sess: s,
            }
        }
        _ => {
            let n = net(r.u64());
            let kind = if reader == Reader::Sync { Kind::Sync } else { Kind::Async };
            let mut cfg = PeerCfg::new(r, role);
            for _ in 0..skip {
                cfg.session.push(pkt(0, b"x"));
            }
            let (mut c, p) = established(kind, role, cfg, None, None, &n);
            for _ in 0..skip {
                if c.read().is_err() {
                    panic!("{}honest packet refused", crate::run::MONITOR);
                }
            }
            let s = take_session(&p);
            n.lock().unwrap().log = false;
            Setup {
                low: None,
                conn: Some((c, n)),
                reader,
                sess: s,
            }
        }
    }
}

struct Honest {
    pkts: Vec<Pkt>,
    stream: Vec<u8>,
    ends: Vec<usize>,
}

fn honest(s: &mut RefSession, pkts: Vec<Pkt>) -> Honest {
    let mut stream = Vec::new();
    let mut ends = Vec::new();
    for p in &pkts {
        stream.extend(s.send.packet(p.header, &p.contents, &[]));
        ends.push(stream.len());
    }
    Honest { pkts, stream, ends }
}

/// Offline oracle over the results of the reads.
struct Judge<'a> {
    h: &'a Honest,
    diff: usize,
    ok: usize,
    err_seen: bool,
}
impl<'a> Judge<'a> {
    fn new(h: &'a Honest, sent: &[u8]) -> Self {
        let diff = first_diff(&h.stream, sent).unwrap_or(usize::MAX);
        Judge {
            h,
            diff,
            ok: 0,
            err_seen: false,
        }
    }
    fn intact(&self) -> usize {
        self.h.ends.iter().filter(|e| **e <= self.diff).count()
    }
    fn result(&mut self, o: &Out, what: &str) -> CaseResult {
        match o {
            Out::Ok(t, b) => {
                let k = self.ok;
                ensure!(
                    k < self.h.pkts.len(),
                    "{what}: payload of {} bytes delivered beyond the {k} sent",
                    b.len()
                );
                let w = &self.h.pkts[k];
                ensure!(
                    *t == ptype(w.header) && b[..] == w.contents[..],
                    "{what}: delivery {k} is not what was sent at that place ({} bytes, sent {}; after an error: {})",
                    b.len(),
                    w.contents.len(),
                    self.err_seen
                );
                ensure!(
                    self.err_seen || self.ok < self.intact(),
                    "{what}: packet {k} delivered although altered at stream offset {}",
                    self.diff
                );
                self.ok += 1;
            }
            Out::Err => {
                ensure!(
                    self.err_seen || self.ok >= self.intact(),
                    "{what}: error at packet {} although the {} packets before the first altered byte {} are intact",
                    self.ok,
                    self.intact(),
                    self.diff
                );
                self.err_seen = true;
            }
            Out::End => {
                ensure!(
                    self.err_seen || self.ok >= self.intact(),
                    "{what}: packet {} missing although intact",
                    self.ok
                );
            }
        }
        Ok(())
    }
}

const MORE: usize = 6;

/// Feed the tampered stream to the receiver and judge everything it returns.
fn run(s: Setup, h: &Honest, bytes: &[u8], what: &str) -> Result<(usize, usize), crate::run::Fail> {
    let mut j = Judge::new(h, bytes);
    let mut errs = 0;
    match s.reader {
        Reader::Low(entry) => {
            let mut l = Low {
                c: s.low.unwrap(),
                entry,
                pos: 0,
            };
            for _ in 0..h.pkts.len() + MORE {
                let o = l.next(bytes);
                j.result(&o, what)?;
                match o {
                    Out::Err => errs += 1,
                    Out::End => break,
                    _ => {}
                }
            }
        }
        _ => {
            let (mut c, n) = s.conn.unwrap();
            {
                let mut g = n.lock().unwrap();
                g.push(bytes);
                g.eof = true;
                g.eof_reads = 0;
            }
            for _ in 0..h.pkts.len() + MORE {
                let o = match c.read() {
                    Ok(p) => Out::Ok(p.packet_type(), p.contents().to_vec()),
                    Err(_) => {
                        errs += 1;
                        Out::Err
                    }
                };
                j.result(&o, what)?;
                if errs > MORE {
                    break;
                }
            }
            ensure!(
                j.diff == usize::MAX || errs > 0,
                "{what}: no error reported for an altered stream"
            );
        }
    }
    Ok((j.ok, errs))
}

fn short_stream(r: &mut Rng) -> Vec<Pkt> {
    let k = r.range(3, 6);
    (0..k)
        .map(|i| {
            let z = *r.pick(&[0usize, 0, 1, 3, 15, 16, 30, 47, 64]);
            let mut m = r.bytes(z);
            if let Some(x) = m.first_mut() {
                *x = i as u8;
            }
            pkt(if r.chance(1, 4) { 0x80 } else { 0 }, &m)
        })
        .collect()
}

fn where_from(r: &mut Rng) -> u64 {
    *r.pick(&[0u64, 0, 0, 1, 220, 221, 222, 223, 224])
}

/// Every single bit of one short stream, one receiver kind.
fn every_bit(c: &mut Case) -> CaseResult {
    let reader = READERS[(c.idx % 5) as usize];
    let role = ROLES[((c.idx / 5) % 2) as usize];
    let skip = if c.idx / 10 % 2 == 0 { 0 } else { *c.rng.pick(&[221u64, 222]) };
    let seed = c.rng.u64();
    let pkts = vec![pkt(0, b"first"), pkt(0x80, b""), pkt(0, b"thirdthird")];
    // The low-level session can be cloned; the others are set up again with the same script.
    let base = match reader {
        Reader::Low(_) => Some(setup(&mut Rng::new(seed), reader, role, skip)),
        _ => None,
    };
    let total: usize = pkts.iter().map(|p| p.contents.len() + 20).sum();
    for bit in 0..total * 8 {
        let mut s = match &base {
            Some(b) => Setup {
                low: b.low.clone(),
                conn: None,
                reader,
                sess: b.sess.clone(),
            },
            None => setup(&mut Rng::new(seed), reader, role, skip),
        };
        let h = honest(&mut s.sess, pkts.clone());
        let mut b = h.stream.clone();
        b[bit / 8] ^= 1 << (bit % 8);
        let what = format!("{reader:?} {role:?} after {skip} packets, bit {bit} flipped");
        run(s, &h, &b, &what)?;
        c.sig(&[c.idx % 5, role_init(role) as u64, skip, bit as u64]);
        c.local.evals += 1;
    }
    c.count("bit_flips", (total * 8) as u64);
    Ok(())
}

/// One altered bit in packets of every length.
fn every_length(c: &mut Case) -> CaseResult {
    let lens = crate::shaped::sweep_lengths(c.idx % crate::shaped::sweep_slices());
    for (i, len) in lens.iter().enumerate() {
        let r = &mut c.rng;
        let reader = READERS[(i + (c.idx / crate::shaped::sweep_slices()) as usize) % READERS.len()];
        let role = ROLES[r.below(2)];
        let mut s = setup(r, reader, role, 0);
        let pkts = vec![
            pkt(0, &r.bytes(4)),
            pkt(*r.pick(&[0u8, 0x80]), &r.content(*len)),
            pkt(0, &r.bytes(5)),
        ];
        let h = honest(&mut s.sess, pkts);
        let mut bytes = h.stream.clone();
        // after the length: header, contents and tag, the ends more often
        let (a, b) = (h.ends[0] + 3, h.ends[1]);
        let at = match r.below(4) {
            0 => b - 1 - r.below(16),
            1 => b - 17 - r.below((b - a - 16).min(17)),
            2 => a + r.below((b - a).min(16)),
            _ => a + r.below(b - a),
        };
        let bit = r.below(8);
        bytes[at] ^= 1 << bit;
        let what = format!("{reader:?}, contents of {len} bytes, bit {bit} of byte {} of the packet flipped", at - h.ends[0]);
        run(s, &h, &bytes, &what)?;
        c.eval();
    }
    c.count("lengths swept", lens.len() as u64);
    c.sig(&[9, c.idx]);
    Ok(())
}

fn mutate(r: &mut Rng, h: &Honest, other: &[u8]) -> (Vec<u8>, String, u64) {
    let s = &h.stream;
    let n = h.ends.len();
    let seg = |i: usize| -> &[u8] {
        let a = if i == 0 { 0 } else { h.ends[i - 1] };
        &s[a..h.ends[i]]
    };
    let op = r.below(16);
    let i = r.below(n);
    let at = r.below(s.len());
    let mut v = s.clone();
    let d = match op {
        0 => {
            v[at] ^= 1 + r.below(255) as u8;
            format!("byte {at} changed")
        }
        1 => {
            let k = 1 + r.below(20);
            let x = r.content(k);
            v.splice(at..at, x);
            format!("{k} bytes inserted at {at}")
        }
        2 => {
            let e = (at + 1 + r.below(40)).min(s.len());
            v.drain(at..e);
            format!("{at}..{e} deleted")
        }
        3 => {
            let p = seg(i).to_vec();
            let a = h.ends[i];
            v.splice(a..a, p);
            format!("packet {i} duplicated")
        }
        4 => {
            let j = r.below(n);
            let order: Vec<usize> = {
                let mut o: Vec<usize> = (0..n).collect();
                o.swap(i, j);
                o
            };
            v = order.iter().flat_map(|k| seg(*k).to_vec()).collect();
            format!("packets {i} and {j} swapped")
        }
        5 => {
            v = (0..n).filter(|k| *k != i).flat_map(|k| seg(k).to_vec()).collect();
            format!("packet {i} dropped")
        }
        6 => {
            v.truncate(at);
            format!("truncated to {at}")
        }
        7 => {
            let a = if i == 0 { 0 } else { h.ends[i - 1] };
            v.splice(a..a, other.iter().copied());
            format!("own packets reflected before packet {i}")
        }
        8 => {
            v = other.to_vec();
            v.extend_from_slice(s);
            "reflection in front".into()
        }
        9 => {
            let k = r.below(i + 1);
            v.extend_from_slice(seg(k));
            format!("packet {k} replayed at the end")
        }
        10 => {
            v.extend_from_slice(s);
            "whole stream replayed".into()
        }
        11 => {
            // body of another packet behind this length
            let j = r.below(n);
            let a = if i == 0 { 0 } else { h.ends[i - 1] };
            let b = seg(j)[3..].to_vec();
            v.splice(a + 3..h.ends[i], b);
            format!("body of packet {j} in packet {i}")
        }
        12 => {
            let k = 1 + r.below(60);
            let x = r.content(k);
            v.extend(x);
            format!("{k} bytes appended")
        }
        13 => {
            let e = (at + 1 + r.below(60)).min(s.len());
            v[at..e].fill(0);
            format!("{at}..{e} zeroed")
        }
        14 => {
            // tag of one packet on another
            let j = r.below(n);
            let tag = seg(j)[seg(j).len() - 16..].to_vec();
            let e = h.ends[i];
            v[e - 16..e].copy_from_slice(&tag);
            format!("tag of packet {j} on packet {i}")
        }
        _ => {
            for _ in 0..2 + r.below(4) {
                let a = r.below(v.len());
                v[a] ^= 1 << r.below(8);
            }
            "several bits flipped".into()
        }
    };
    (v, d, op as u64)
}

fn tamper(c: &mut Case) -> CaseResult {
    let reader = READERS[(c.idx % 5) as usize];
    let role = ROLES[((c.idx / 5) % 2) as usize];
    let r = &mut c.rng;
    let skip = where_from(r);
    let pkts = short_stream(r);
    let mut s = setup(r, reader, role, skip);
    let h = honest(&mut s.sess, pkts);
    // what the local side sent itself
    let own = {
        let mut d = s.sess.recv.clone();
        let mut v = d.packet(0, b"reflected", &[]);
        v.extend(d.packet(0, b"", &[]));
        v
    };
    let (mut b, mut what, op) = mutate(r, &h, &own);
    if r.chance(1, 4) {
        // a second alteration somewhere
        if !b.is_empty() {
            let a = r.below(b.len());
            b[a] ^= 1 << r.below(8);
            what += &format!(" and byte {a} changed");
        }
    }
    if let Some((_, n)) = &s.conn {
        let mut g = n.lock().unwrap();
        g.rseg = match r.below(3) {
            0 => Seg::All,
            1 => Seg::Fixed(1 + r.below(30)),
            _ => Seg::Random(40),
        };
    }
    let what = format!("{reader:?} {role:?} after {skip} packets, {what}");
    let (ok, errs) = run(s, &h, &b, &what)?;
    c.sig(&[c.idx % 5, skip, op, ok as u64, first_diff(&h.stream, &b).unwrap_or(9999) as u64]);
    c.count("tampered_streams", 1);
    c.count("payloads_before_damage", ok as u64);
    c.count("errors_reported", errs as u64);
    c.eval();
    c.sample(|| format!("{what}: {ok} of {} payloads delivered, then {errs} errors", h.pkts.len()));
    Ok(())
}

/// An attacker who knows the plaintext lengths and forges valid announcements after each error.
fn adaptive(c: &mut Case) -> CaseResult {
    let reader = READERS[(c.idx % 5) as usize];
    let role = ROLES[((c.idx / 5) % 2) as usize];
    let r = &mut c.rng;
    let skip = where_from(r);
    let pkts: Vec<Pkt> = short_stream(r);
    let mut s = setup(r, reader, role, skip);
    let mut ann = s.sess.send.clone();
    let h = honest(&mut s.sess, pkts);
    let n = h.pkts.len();
    let body = |i: usize| -> Vec<u8> {
        let a = if i == 0 { 0 } else { h.ends[i - 1] };
        h.stream[a + 3..h.ends[i]].to_vec()
    };
    // The announcements follow the receiver's length counter one by one, so every read takes in
    // exactly the body chosen for it.
    let mut b = Vec::new();
    let mut want_next = 0usize;
    let steps = r.range(3, 9);
    let mut script = Vec::new();
    for _ in 0..steps {
        let (k, corrupt) = match r.below(5) {
            0 => (r.below(n), false),
            1 => (want_next.min(n - 1), true),
            2 => ((want_next + 1).min(n - 1), false),
            3 => (want_next.saturating_sub(1), false),
            _ => (want_next.min(n - 1), false),
        };
        let mut x = body(k);
        if corrupt {
            let a = r.below(x.len());
            x[a] ^= 1 << r.below(8);
        }
        b.extend_from_slice(&ann.announce(x.len() - 17));
        b.extend_from_slice(&x);
        if k == want_next && !corrupt {
            want_next += 1;
        }
        script.push((k, corrupt));
    }
    if h.stream.starts_with(&b) {
        // nothing altered
        b.extend_from_slice(&[0; 40]);
    }
    let what = format!("{reader:?} {role:?} after {skip} packets, forged announcements with bodies {script:?}");
    let (ok, errs) = run(s, &h, &b, &what)?;
    c.sig(&[c.idx % 5, skip, crate::util::hash_str(&format!("{script:?}"))]);
    c.count("forged_announcements", steps as u64);
    c.count("deliveries_and_errors_mixed", (ok > 0 && errs > 0) as u64);
    c.eval();
    Ok(())
}

/// Oversized announcements inside a session, then attempts to resume.
fn oversize(c: &mut Case) -> CaseResult {
    let reader = READERS[3 + (c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let r = &mut c.rng;
    let skip = where_from(r);
    let pkts = short_stream(r);
    let mut s = setup(r, reader, role, skip);
    let mut ann = s.sess.send.clone();
    let h = honest(&mut s.sess, pkts);
    let at = r.below(h.ends.len());
    let a = if at == 0 { 0 } else { h.ends[at - 1] };
    let mut b = h.stream[..a].to_vec();
    for _ in 0..at {
        ann.announce(0);
    }
    for _ in 0..1 + r.below(3) {
        b.extend_from_slice(&ann.announce(*r.pick(&[4_000_014usize, 4_000_015, 0xff_ffff, 0x80_0000])));
    }
    match r.below(3) {
        0 => b.extend_from_slice(&h.stream[a..]),
        1 => b.extend_from_slice(&h.stream[a + 3..]),
        _ => {
            // skip the refused packet
            for i in at + 1..h.ends.len() {
                let x = &h.stream[h.ends[i - 1] + 3..h.ends[i]];
                b.extend_from_slice(&ann.announce(x.len() - 17));
                b.extend_from_slice(x);
            }
            b.extend_from_slice(&[0; 4]);
        }
    }
    let what = format!("{reader:?} {role:?} after {skip} packets, oversized announcement at packet {at}");
    run(s, &h, &b, &what)?;
    c.count("oversize_then_resume", 1);
    c.sig(&[c.idx % 2, skip, at as u64]);
    c.eval();
    Ok(())
}

/// Associated data must match exactly.
fn aad(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let (mut cs, mut s) = low_session(r, role);
    for k in 0..20u64 {
        let z = r.below(40);
        let m = r.bytes(z);
        let an = *r.pick(&[0usize, 1, 5, 15, 16, 17, 32, 48, 100]);
        let a = r.bytes(an);
        let p = s.send.packet(0, &m, &a);
        cs.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
        let mut w = a.clone();
        let how = r.below(5);
        match how {
            0 if !w.is_empty() => {
                let i = r.below(w.len());
                w[i] ^= 1 << r.below(8)
            }
            1 => w.push(0),
            2 if !w.is_empty() => {
                w.pop();
            }
            3 => w.extend_from_slice(&[0; 16]),
            _ => {
                w.insert(0, 0);
            }
        }
        if w == a {
            w.push(0);
        }
        let entry = r.below(3);
        ensure!(
            low_decrypt(cs.inbound(), &p[3..], entry, Some(&w)).is_err(),
            "packet {k} accepted with associated data of {} bytes instead of {} (variant {how}, entry {entry})",
            w.len(),
            a.len()
        );
        match low_decrypt(cs.inbound(), &p[3..], entry, Some(&a)) {
            Ok((_, x)) => ensure!(x[1..] == m[..], "contents differ"),
            Err(e) => vio!("right associated data refused after a wrong one: {e}"),
        }
        c.local.evals += 1;
        c.local.counters.entry("aad_variants").and_modify(|x| *x += 1).or_insert(1);
        let f = crate::util::hash_str("aad");
        c.local.sigs.insert(crate::util::mix(f, (an as u64) << 8 | how as u64));
    }
    Ok(())
}

/// The untampered stream must be delivered completely (the oracle is not vacuous).
fn control(c: &mut Case) -> CaseResult {
    let reader = READERS[(c.idx % 5) as usize];
    let role = ROLES[((c.idx / 5) % 2) as usize];
    let r = &mut c.rng;
    let skip = where_from(r);
    let pkts = short_stream(r);
    let mut s = setup(r, reader, role, skip);
    let h = honest(&mut s.sess, pkts);
    let (ok, _) = run(s, &h, &h.stream.clone(), "untampered")?;
    ensure!(ok == h.pkts.len(), "{reader:?}: only {ok} of {} untampered payloads", h.pkts.len());
    c.count("control_streams", 1);
    c.eval();
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C04",
        level: "exploration",
        rule: "Byte streams of an established session altered between a reference sender and the real receiver (three low-level entry points, sync, async), including after 220-224 packets (re-keying) and with announcements forged by an attacker who knows the lengths; the recorded sequence of deliveries and errors is judged against the sent sequence. Distinct = different receiver, position, kind and place of alteration.",
        assumptions: vec!["Alterations are sampled except for the exhaustive single-bit families; forgery by guessing a Poly1305 tag is not attempted."],
        families: vec![
            fam("every_bit", t(tier, 120, 960), every_bit),
            fam("every_length", t(tier, 5, 50) * crate::shaped::sweep_slices(), every_length),
            fam("tamper", t(tier, 36_000, 288_000), tamper),
            fam("adaptive", t(tier, 18_000, 144_000), adaptive),
            fam("oversize", t(tier, 3_600, 28_800), oversize),
            fam("aad", t(tier, 1_200, 9_600), aad),
            fam("control", t(tier, 600, 4_800), control),
        ],
        require: vec![
            "lengths swept","bit_flips", "tampered_streams", "forged_announcements", "deliveries_and_errors_mixed", "oversize_then_resume", "aad_variants", "control_streams"],
    }
}
