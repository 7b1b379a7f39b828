//! C08: asynchronous packet reads are cancellation safe.

use super::t;
use crate::net::{drive, net, Polled, Seg, Shared, R};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Suite, Tier, HARNESS};
use crate::util::{first_diff, hash_str, Rng};
use crate::{ensure, vio};
use bip324::io::{Payload, ProtocolError};
use bip324::Role;

/// The readers with an async read.
enum Rd {
    Whole(Box<bip324::futures::Protocol<R, crate::net::W>>),
    Half(bip324::futures::ProtocolReader<R>),
    Shaped(bip324_traffic::futures::ShapedProtocolReader<R>),
}

impl Rd {
    /// None: dropped at the given poll.
    fn read(
        &mut self,
        n: &Shared,
        cancel: Option<u64>,
    ) -> Result<(Option<Result<Payload, ProtocolError>>, u64), crate::run::Fail> {
        let p = match self {
            Rd::Whole(p) => drive(p.read(), &[n], cancel),
            Rd::Half(p) => drive(p.read(), &[n], cancel),
            Rd::Shaped(p) => drive(p.read(), &[n], cancel),
        };
        Ok(match p {
            Polled::Ready(v, k) => (Some(v), k),
            Polled::Cancelled => (None, cancel.unwrap_or(0)),
            Polled::Stuck => vio!("read is not woken although the transport has data"),
        })
    }
}

fn make(r: &mut Rng, which: usize, role: Role, cfg: PeerCfg, n: &Shared) -> Rd {
    match which {
        0 | 1 => {
            let (c, _) = established(Kind::Async, role, cfg, None, None, n);
            match c {
                Conn::A(p, _) if which == 0 => Rd::Whole(Box::new(p)),
                Conn::A(p, _) => Rd::Half(p.into_split().0),
                _ => unreachable!(),
            }
        }
        _ => {
            let _p = attach(n, cfg, None);
            // Handshake (and the writer task, which is not under test here) on a runtime that is
            // dropped before the reads.
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .build()
                .unwrap();
            let mut conf = bip324_traffic::TrafficConfig::new();
            if r.coin() {
                conf = conf.with_padding_strategy(bip324_traffic::PaddingStrategy::Random);
            }
            let p = rt.block_on(bip324_traffic::futures::ShapedProtocol::new(
                MAGIC,
                role,
                conf,
                R(n.clone()),
                crate::net::W(n.clone()),
            ));
            match p {
                Ok(p) => Rd::Shaped(p.into_split().0),
                Err(e) => panic!("{}honest handshake fails: {}", crate::run::MONITOR, err_class(&e)),
            }
        }
    }
}

fn script(r: &mut Rng, k: usize, big: bool) -> Vec<Pkt> {
    (0..k)
        .map(|q| {
            let n = if big && q == k / 2 {
                *r.pick(&[70_000usize, 300_000, 4_000_013])
            } else {
                r.small_size().min(600)
            };
            let mut m = r.content(n);
            if let Some(x) = m.first_mut() {
                *x = q as u8;
            }
            pkt(*r.pick(&[0u8, 0, 0x80]), &m)
        })
        .collect()
}

fn check(k: usize, p: Result<Payload, ProtocolError>, w: &Pkt, how: &str) -> CaseResult {
    match p {
        Ok(p) => {
            ensure!(
                p.packet_type() == ptype(w.header) && p.contents() == &w.contents[..],
                "{how}: read {k} returned {} bytes differing from the {} sent (first at {:?})",
                p.contents().len(),
                w.contents.len(),
                first_diff(p.contents(), &w.contents)
            );
            Ok(())
        }
        Err(e) => vio!("{how}: read {k} fails: {}", err_class(&e)),
    }
}

/// Deliver `bytes` with the given transport script and cancellation policy and judge all reads.
struct Plan<'a> {
    which: usize,
    role: Role,
    pkts: &'a [Pkt],
    seg: Seg,
    pending: usize,
    defer: bool,
    /// Cancel decision: (read attempt number overall, polls so far is decided by returned value).
    cancel: Box<dyn FnMut(u64, &mut Rng) -> Option<u64> + 'a>,
    coalesced: bool,
}

fn exec(c: &mut Case, mut p: Plan, how: &str) -> Result<(u64, u64), crate::run::Fail> {
    let r = &mut c.rng;
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let mut cfg = PeerCfg::new(r, p.role);
    if p.coalesced {
        cfg.garbage = r.bytes(20);
        cfg.session = p.pkts.to_vec();
    }
    let peer = {
        let mut rr = r.clone();
        let rd = make(&mut rr, p.which, p.role, cfg.clone(), &n);
        rd
    };
    let mut rd = peer;
    {
        let mut g = n.lock().unwrap();
        if !p.coalesced {
            // The session as the peer sees it: derived from the key on the wire.
            let their: [u8; 64] = g.out[..64].try_into().unwrap();
            let mut s = session_for(&cfg, &their);
            transcript(&cfg, &mut s);
            for q in p.pkts {
                let b = s.send.packet(q.header, &q.contents, &[]);
                g.push(&b);
            }
        }
        g.rseg = p.seg.clone();
        // offsets of Cuts are relative to the session
        let o = if p.coalesced { 0 } else { g.in_off };
        if let Seg::Cuts(x) = &mut g.rseg {
            for v in x.iter_mut() {
                *v += o;
            }
        }
        g.pending = p.pending;
        g.defer_wake = p.defer;
    }
    let mut attempts = 0u64;
    let mut cancels = 0u64;
    let mut k = 0;
    while k < p.pkts.len() {
        let at = (p.cancel)(attempts, &mut c.rng);
        attempts += 1;
        match rd.read(&n, at)? {
            (Some(v), _) => {
                check(k, v, &p.pkts[k], how)?;
                k += 1;
                c.local.evals += 1;
            }
            (None, _) => {
                cancels += 1;
                // what the caller gave up waiting for
                if c.rng.chance(1, 8) {
                    if let Rd::Whole(p) = &mut rd {
                        let x = Payload::genuine(vec![1; 9]);
                        match drive(p.write(&x), &[&n], None) {
                            Polled::Ready(Ok(()), _) => c.count("writes between reads", 1),
                            _ => vio!("{how}: write between two reads does not succeed"),
                        }
                    }
                }
            }
        }
        if attempts > 3_000_000 {
            vio!("{how}: no progress in {attempts} reads");
        }
    }
    // and nothing beyond
    {
        let mut g = n.lock().unwrap();
        g.pending = 0;
        g.eof = true;
    }
    if let (Some(Ok(x)), _) = rd.read(&n, None)? {
        vio!("{how}: extra payload of {} bytes", x.contents().len());
    }
    c.count("reads_cancelled", cancels);
    c.count("payloads_returned", k as u64);
    Ok((attempts, cancels))
}

/// Cancel exactly one poll (every index) or every subset of the first polls, byte by byte.
fn subsets(c: &mut Case) -> CaseResult {
    let which = (c.idx % 3) as usize;
    let role = ROLES[((c.idx / 3) % 2) as usize];
    // not-ready before each of 11 reads of a 25+20 byte stream
    let pkts = vec![pkt(0, b"hello"), pkt(0x80, b"")];
    let seg = [
        Seg::Cuts(vec![1, 2, 3, 10, 24, 25, 26, 28, 40]),
        Seg::Cuts(vec![2, 3, 4, 25, 27, 28, 44]),
    ][(c.idx / 6 % 2) as usize]
        .clone();
    let bits = match &seg {
        Seg::Cuts(v) => v.len() + 1,
        _ => 0,
    };
    let chunk = (c.idx / 12) as usize;
    // each chunk handles 64 masks
    for m in 0..64usize {
        let mask = (chunk * 64 + m) & ((1 << bits) - 1);
        // Each not-ready result is one poll returning Pending; bit i of the mask says whether the
        // future is dropped at the i-th not-ready result.
        let plan_mask = mask;
        let mut pend = 0usize;
        let plan = Plan {
            which,
            role,
            pkts: &pkts,
            seg: seg.clone(),
            pending: 100,
            defer: false,
            cancel: Box::new(move |_, _| {
                // polls until the next set bit
                let mut k = 1;
                while pend < bits {
                    let set = plan_mask >> pend & 1 == 1;
                    pend += 1;
                    if set {
                        return Some(k);
                    }
                    k += 1;
                }
                None
            }),
            coalesced: false,
        };
        exec(c, plan, &format!("{role:?} reader {which}, subset {mask:b} of not-ready polls"))?;
        c.count("cancellation_subsets", 1);
        c.sig(&[c.idx % 12, mask as u64]);
    }
    Ok(())
}

/// Dropped at every poll, over and over.
fn always(c: &mut Case) -> CaseResult {
    let which = (c.idx % 3) as usize;
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let big = c.idx % 24 == 23;
    let r = &mut c.rng;
    let n = r.range(3, 12);
    let pkts = script(r, n, big);
    let seg = if big {
        Seg::Random(20_000)
    } else {
        match r.below(3) {
            0 => Seg::Fixed(1),
            1 => Seg::Fixed(3),
            _ => Seg::Random(40),
        }
    };
    let coalesced = r.chance(1, 3);
    let plan = Plan {
        which,
        role,
        pkts: &pkts,
        seg,
        pending: 100,
        defer: false,
        cancel: Box::new(|_, _| Some(1)),
        coalesced,
    };
    let (a, x) = exec(c, plan, "dropped at every not-ready poll")?;
    c.count("big_packets", big as u64);
    c.sig(&[which as u64, role_init(role) as u64, a, x]);
    c.sample(|| format!("{role:?} reader {which}: {a} reads of which {x} dropped, {n} payloads in order"));
    Ok(())
}

fn random(c: &mut Case) -> CaseResult {
    let which = (c.idx % 3) as usize;
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let n = if r.chance(1, 20) { 260 } else { r.range(3, 25) };
    let big = r.chance(1, 20);
    let pkts = script(r, n, big);
    let seg = match r.below(5) {
        0 => Seg::All,
        1 => Seg::Fixed(1 + r.below(30)),
        2 => Seg::Random(300),
        _ => Seg::Random(30),
    };
    let seg = if big { Seg::Random(100_000) } else { seg };
    let pending = *r.pick(&[5usize, 30, 60, 90]);
    let defer = r.coin();
    let prob = r.range(5, 95);
    let how = format!("{seg:?}, {pending}% not ready, {prob}% dropped");
    let coalesced = r.coin();
    let plan = Plan {
        which,
        role,
        pkts: &pkts,
        seg,
        pending,
        defer,
        cancel: Box::new(move |_, r| {
            if r.chance(prob, 100) {
                Some(1 + r.below(4) as u64)
            } else {
                None
            }
        }),
        coalesced,
    };
    let (a, x) = exec(c, plan, &how)?;
    c.count("random_schedules", 1);
    c.sig(&[which as u64, a, x, hash_str(&how)]);
    Ok(())
}

/// Packets of every length under random cancellation.
fn every_length(c: &mut Case) -> CaseResult {
    let which = (c.idx % 3) as usize;
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let lens = crate::shaped::sweep_lengths((c.idx / 3) % crate::shaped::sweep_slices());
    let r = &mut c.rng;
    let pkts: Vec<Pkt> = lens
        .iter()
        .map(|n| pkt(*r.pick(&[0u8, 0, 0x80]), &r.content(*n)))
        .collect();
    let max = *lens.last().unwrap();
    let seg = match r.below(3) {
        0 => Seg::Fixed(max / 3 + 1),
        1 => Seg::Random(max / 2 + 3),
        _ => Seg::Random(max / 10 + 3),
    };
    let prob = r.range(20, 80);
    let pending = *r.pick(&[30usize, 60]);
    let defer = r.coin();
    let how = format!("every length up to {max}, {seg:?}, {pending}% not ready, {prob}% dropped");
    let plan = Plan {
        which,
        role,
        pkts: &pkts,
        seg,
        pending,
        defer,
        cancel: Box::new(move |_, r| r.chance(prob, 100).then(|| 1 + r.below(4) as u64)),
        coalesced: false,
    };
    let (a, x) = exec(c, plan, &how)?;
    c.count("lengths swept", lens.len() as u64);
    c.sig(&[9, which as u64, a, x]);
    Ok(())
}

/// Data trickles in between dropped reads: the reader waits for a wake-up that must come.
fn trickle(c: &mut Case) -> CaseResult {
    let which = (c.idx % 3) as usize;
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let cfg = PeerCfg::new(r, role);
    let mut rr = r.clone();
    let mut rd = make(&mut rr, which, role, cfg.clone(), &n);
    let k = r.range(2, 6);
    let pkts = script(r, k, false);
    let mut bytes = Vec::new();
    {
        let g = n.lock().unwrap();
        let their: [u8; 64] = g.out[..64].try_into().unwrap();
        let mut s = session_for(&cfg, &their);
        transcript(&cfg, &mut s);
        for q in &pkts {
            bytes.extend(s.send.packet(q.header, &q.contents, &[]));
        }
    }
    n.lock().unwrap().starve_pending = true;
    let mut at = 0;
    let mut got = 0;
    let mut cancels = 0;
    while got < pkts.len() {
        // poll a while with what is there, then drop
        match rd.read(&n, Some(1 + r.below(2) as u64)) {
            Ok((Some(v), _)) => {
                check(got, v, &pkts[got], "trickle")?;
                got += 1;
                c.local.evals += 1;
                continue;
            }
            Ok((None, _)) => cancels += 1,
            Err(crate::run::Fail::Violation(_)) => {
                // Stuck: nothing to read; legitimate only if all bytes so far are used up.
                let g = n.lock().unwrap();
                ensure!(g.inbuf.is_empty(), "trickle: {} bytes ready but the read is not woken", g.inbuf.len());
                cancels += 1;
            }
            Err(e) => return Err(e),
        }
        if at < bytes.len() {
            let m = (1 + r.below(40)).min(bytes.len() - at);
            n.lock().unwrap().push(&bytes[at..at + m]);
            at += m;
        } else if n.lock().unwrap().inbuf.is_empty() && cancels > 1_000_000 {
            panic!("{HARNESS}no progress");
        } else if n.lock().unwrap().inbuf.is_empty() {
            vio!("trickle: all bytes delivered but only {got} of {} payloads returned", pkts.len());
        }
    }
    c.count("reads_cancelled", cancels);
    c.count("trickled_streams", 1);
    c.sig(&[which as u64, k as u64, cancels]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C08",
        level: "exploration",
        rule: "Async reads (Protocol, split reader, shaped reader) are polled by a hand-written executor and dropped at chosen suspension points; the payloads of the reads that complete are compared with the reference sender's sequence. Distinct = different reader and set of dropped polls (all subsets for two short streams), or different random schedule.",
        assumptions: vec!["Suspension points arise from the transport being not ready; no other await exists in the read path."],
        families: vec![
            fam("subsets", t(tier, 12 * 16, 12 * 16), subsets),
            fam("always", t(tier, 2_400, 19_200), always),
            fam("random", t(tier, 15_000, 120_000), random),
            fam("every_length", t(tier, 6, 60) * crate::shaped::sweep_slices(), every_length),
            fam("trickle", t(tier, 3_000, 24_000), trickle),
        ],
        require: vec![
            "lengths swept","writes between reads", "reads_cancelled", "payloads_returned", "cancellation_subsets", "big_packets", "random_schedules", "trickled_streams"],
    }
}
