//! Shaped connections over recording transports, and the oracle over what they put on the wire.

use crate::net::{Fault, Shared};
use crate::peer::*;
use crate::refimpl::RefPacket;
use crate::run::CaseResult;
use crate::util::Rng;
use crate::{ensure, vio};
use bip324_traffic::{DecoyStrategy, PaddingStrategy, TrafficConfig};
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};
use tokio::io::AsyncWrite;

/// One of the equivalent ways to spell a configuration, chosen by the case.
pub fn config(padding: bool, decoys: bool) -> TrafficConfig {
    let p = |on| if on { PaddingStrategy::Random } else { PaddingStrategy::Disabled };
    let d = |on| if on { DecoyStrategy::Random } else { DecoyStrategy::Disabled };
    match crate::run::case_hash() % 6 {
        0 => TrafficConfig::new().with_decoy_strategy(d(decoys)).with_padding_strategy(p(padding)),
        1 => {
            // only what differs from the default
            let mut c = TrafficConfig::default();
            if decoys {
                c = c.with_decoy_strategy(d(true));
            }
            if padding {
                c = c.with_padding_strategy(p(true));
            }
            c
        }
        // the last one counts
        2 => TrafficConfig::new()
            .with_padding_strategy(p(!padding))
            .with_decoy_strategy(d(!decoys))
            .with_padding_strategy(p(padding))
            .with_decoy_strategy(d(decoys)),
        3 => TrafficConfig::default()
            .with_decoy_strategy(d(!decoys))
            .with_decoy_strategy(d(decoys))
            .with_padding_strategy(p(padding))
            .clone(),
        _ => TrafficConfig::new().with_padding_strategy(p(padding)).with_decoy_strategy(d(decoys)),
    }
}

pub const STRATEGIES: [(bool, bool); 4] =
    [(false, false), (true, false), (false, true), (true, true)];

/// A sink that records bytes with the time of each write call, optionally slow, short, failing.
pub struct Rec {
    pub out: Vec<u8>,
    /// (offset at entry, when): one entry per write call.
    pub calls: Vec<(usize, Duration)>,
    pub start: Instant,
    pub max_write: usize,
    /// Sleep per write call (blocking) or not-ready time (async, on the runtime's clock).
    pub delay: Duration,
    pub slow_pct: usize,
    pub rng: Rng,
    pub writes: u64,
    pub flushes: u64,
    pub flushed: usize,
    pub wfault: Option<(u64, Fault)>,
    pub ffault: Option<(u64, Fault)>,
    pub sticky: bool,
    pub fired: bool,
    pub dropped: bool,
    pub writes_after_drop: u64,
    /// Set by the harness when the connection was dropped; later writes are counted.
    pub closed: bool,
    /// No write gets through while set.
    pub blocked: bool,
    pub blocked_calls: u64,
    pub waker: Option<Waker>,
    /// Writes in progress, to see overlapping calls.
    pub inside: u32,
    pub overlaps: u64,
    /// Whether the virtual clock of tokio is used for time stamps.
    pub virt: Option<tokio::time::Instant>,
    /// Bytes given to the peer on demand.
    pub net: Shared,
}
pub type RecRef = Arc<(Mutex<Rec>, Condvar)>;
pub struct RecW(pub RecRef, Option<Pin<Box<tokio::time::Sleep>>>);

pub fn rec(seed: u64, net: &Shared) -> (RecRef, RecW) {
    let r = Arc::new((
        Mutex::new(Rec {
            out: Vec::new(),
            calls: Vec::new(),
            start: Instant::now(),
            max_write: usize::MAX,
            delay: Duration::ZERO,
            slow_pct: 0,
            rng: Rng::new(seed),
            writes: 0,
            flushes: 0,
            flushed: 0,
            wfault: None,
            ffault: None,
            sticky: false,
            fired: false,
            dropped: false,
            writes_after_drop: 0,
            closed: false,
            blocked: false,
            blocked_calls: 0,
            waker: None,
            inside: 0,
            overlaps: 0,
            virt: None,
            net: net.clone(),
        }),
        Condvar::new(),
    ));
    (r.clone(), RecW(r, None))
}

impl Rec {
    fn now(&self) -> Duration {
        match self.virt {
            Some(v) => v.elapsed(),
            None => self.start.elapsed(),
        }
    }
    fn hit(f: Option<(u64, Fault)>, k: u64, sticky: bool) -> Option<Fault> {
        match f {
            Some((n, f)) if n == k || (sticky && k > n) => Some(f),
            _ => None,
        }
    }
    fn do_write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.closed {
            self.writes_after_drop += 1;
        }
        let k = self.writes;
        self.writes += 1;
        if let Some(f) = Self::hit(self.wfault, k, self.sticky) {
            self.fired = true;
            return match f {
                Fault::Err(e) => Err(e.into()),
                Fault::Zero => Ok(0),
            };
        }
        let m = if self.max_write == usize::MAX {
            b.len()
        } else {
            1 + self.rng.below(self.max_write)
        };
        let n = m.min(b.len());
        self.out.extend_from_slice(&b[..n]);
        // the remote sees it
        self.net.lock().unwrap().out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn do_flush(&mut self) -> io::Result<()> {
        if self.closed {
            self.writes_after_drop += 1;
        }
        let k = self.flushes;
        self.flushes += 1;
        if let Some(Fault::Err(e)) = Self::hit(self.ffault, k, self.sticky) {
            self.fired = true;
            return Err(e.into());
        }
        self.flushed = self.out.len();
        let mut n = self.net.lock().unwrap();
        n.flushed = n.out.len();
        Ok(())
    }
}

impl io::Write for RecW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let (m, cv) = &*self.0;
        let mut g = m.lock().unwrap();
        let at = (g.out.len(), g.now());
        g.calls.push(at);
        g.inside += 1;
        if g.inside > 1 {
            g.overlaps += 1;
        }
        if g.blocked {
            g.blocked_calls += 1;
            cv.notify_all();
            while g.blocked {
                g = cv.wait(g).unwrap();
            }
        }
        let p = g.slow_pct;
        if p > 0 && g.rng.chance(p, 100) {
            let d = g.delay;
            drop(g);
            std::thread::sleep(d);
            g = m.lock().unwrap();
        }
        let r = g.do_write(b);
        g.inside -= 1;
        cv.notify_all();
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let (m, cv) = &*self.0;
        let mut g = m.lock().unwrap();
        g.inside += 1;
        if g.inside > 1 {
            g.overlaps += 1;
        }
        let r = g.do_flush();
        g.inside -= 1;
        cv.notify_all();
        r
    }
}

impl AsyncWrite for RecW {
    fn poll_write(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &[u8],
    ) -> Poll<io::Result<usize>> {
        let r = self.0.clone();
        let mut g = r.0.lock().unwrap();
        let at = (g.out.len(), g.now());
        g.calls.push(at);
        if g.blocked {
            g.blocked_calls += 1;
            g.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(s) = self.1.as_mut() {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.1 = None;
        } else {
            let p = g.slow_pct;
            if p > 0 && g.rng.chance(p, 100) {
                let d = g.delay;
                let mut s = Box::pin(tokio::time::sleep(d));
                if s.as_mut().poll(cx).is_pending() {
                    self.1 = Some(s);
                    return Poll::Pending;
                }
            }
        }
        Poll::Ready(g.do_write(b))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.0 .0.lock().unwrap().do_flush())
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
use std::future::Future;

impl Drop for RecW {
    fn drop(&mut self) {
        if let Ok(mut g) = self.0 .0.lock() {
            g.dropped = true;
        }
        self.0 .1.notify_all();
    }
}

pub fn unblock(r: &RecRef) {
    let mut g = r.0.lock().unwrap();
    g.blocked = false;
    if let Some(w) = g.waker.take() {
        w.wake();
    }
    r.1.notify_all();
}

/// What a shaped connection sent.
#[derive(Debug, Default)]
pub struct Wire {
    pub garbage: Vec<u8>,
    pub hs_decoys: Vec<usize>,
    /// (is decoy, contents) after the version packet.
    pub session: Vec<(bool, Vec<u8>)>,
    /// Absolute end offset of each session packet.
    pub ends: Vec<usize>,
    pub leftover: usize,
    pub unsolicited: usize,
}

/// Parse with the reference; every byte must belong to a valid packet except a tail.
pub fn wire(out: &[u8], s: &RefSession) -> Result<Wire, String> {
    let sent = parse_sent(out, s)?;
    let v = sent.version.ok_or("no version packet")?;
    let mut w = Wire {
        leftover: sent.leftover,
        ..Wire::default()
    };
    let mut end = 64 + sent.garbage.len() + 16;
    w.garbage = sent.garbage;
    for (i, p) in sent.packets.iter().enumerate() {
        let RefPacket { header, contents, .. } = p;
        end += 20 + contents.len();
        if *header != 0 && *header != 0x80 {
            return Err(format!("packet {i} has header {header:#04x}"));
        }
        if i < v {
            w.hs_decoys.push(contents.len());
        } else if i > v {
            w.session.push((*header == 0x80, contents.clone()));
            w.ends.push(end);
        }
    }
    Ok(w)
}

/// The genuine packets must be `want` (a prefix of it of at least `min` when writes were lost to
/// an injected fault).
pub fn check_genuine(w: &Wire, want: &[Vec<u8>], min: usize) -> CaseResult {
    let got: Vec<&Vec<u8>> = w.session.iter().filter(|p| !p.0).map(|p| &p.1).collect();
    ensure!(
        got.len() >= min && got.len() <= want.len(),
        "{} genuine packets on the wire, {} writes completed of {}",
        got.len(),
        min,
        want.len()
    );
    for (i, (g, x)) in got.iter().zip(want).enumerate() {
        ensure!(
            *g == x,
            "genuine packet {i} on the wire differs from write {i} ({} bytes, expected {})",
            g.len(),
            x.len()
        );
    }
    Ok(())
}

/// Strategy rules over everything sent. `cut`: the stream may stop after a padding decoy.
pub fn check_strategy(w: &mut Wire, padding: bool, decoys: bool, cut: bool) -> CaseResult {
    if padding {
        ensure!(w.garbage.len() <= 4095, "{} bytes of garbage", w.garbage.len());
    } else {
        ensure!(
            w.garbage.is_empty(),
            "{} bytes of garbage with padding disabled",
            w.garbage.len()
        );
    }
    if decoys {
        ensure!(w.hs_decoys.len() <= 3, "{} handshake decoys", w.hs_decoys.len());
        for n in &w.hs_decoys {
            ensure!((1..=1024).contains(n), "handshake decoy of {n} bytes");
        }
    } else {
        ensure!(
            w.hs_decoys.is_empty(),
            "{} handshake decoys with decoys disabled",
            w.hs_decoys.len()
        );
    }
    let n = w.session.len();
    let mut used = vec![false; n];
    for (d, c) in &w.session {
        if *d {
            ensure!(
                (1..=1024).contains(&c.len()),
                "decoy of {} bytes in the session",
                c.len()
            );
        }
    }
    if padding {
        for i in 0..n {
            if w.session[i].0 {
                continue;
            }
            if i > 0 && w.session[i - 1].0 && !used[i - 1] {
                used[i - 1] = true;
            } else if i + 1 < n && w.session[i + 1].0 {
                used[i + 1] = true;
            } else {
                ensure!(cut && i + 1 == n, "genuine packet {i} without an adjacent decoy");
            }
        }
    }
    w.unsolicited = (0..n).filter(|i| w.session[*i].0 && !used[*i]).count();
    if cut && padding && n > 0 && w.session[n - 1].0 && !used[n - 1] && w.unsolicited > 0 {
        w.unsolicited -= 1;
    }
    if !decoys {
        ensure!(
            w.unsolicited == 0,
            "{} decoys accompany no genuine packet with decoys disabled (padding {padding})",
            w.unsolicited
        );
    }
    Ok(())
}

/// Distinct contents with variety of sizes.
pub fn message(r: &mut Rng, i: usize, max: usize) -> Vec<u8> {
    let n = match r.below(5) {
        0 => r.small_size(),
        1 => r.below(max),
        _ => r.below(200),
    }
    .min(max);
    let mut v = r.content(n);
    if v.len() >= 4 {
        v[..4].copy_from_slice(&(i as u32).to_le_bytes());
    }
    v
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime")
}

pub fn kind_of(e: &bip324::io::ProtocolError) -> Option<ErrorKind> {
    match e {
        bip324::io::ProtocolError::Io(e, _) => Some(e.kind()),
        _ => None,
    }
}

/// Waits (on the runtime's clock) until the transport is released, or until nothing was written to
/// it for `quiet` check intervals. Whether it is released at all is not judged here (C16).
pub async fn settle(rec: &RecRef, quiet: u32) {
    let mut last = (0, 0);
    let mut idle = 0;
    // a background task that goes on for ever is left to itself after a while
    for _ in 0..200_000 {
        {
            let g = rec.0.lock().unwrap();
            if g.dropped {
                return;
            }
            let now = (g.writes, g.out.len());
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
        }
        if idle > quiet {
            return;
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
}

/// Contents lengths which get their turn in a sweep; `sweep_slices()` slices together.
const SWEPT: usize = 8192;
const SWEEP_SLICE: usize = 256;
pub fn sweep_slices() -> u64 {
    (SWEPT / SWEEP_SLICE) as u64 + 1
}
pub fn sweep_lengths(slice: u64) -> Vec<usize> {
    if slice + 1 < sweep_slices() {
        let from = slice as usize * SWEEP_SLICE;
        return (from..from + SWEEP_SLICE).collect();
    }
    // around the powers of two and ten
    let mut v: Vec<usize> = [
        1 << 13,
        10_000,
        1 << 14,
        1 << 15,
        50_000,
        1 << 16,
        100_000,
        1 << 17,
        1 << 18,
        1_000_000,
        1 << 20,
        4_000_000,
    ]
    .iter()
    .flat_map(|n| [n - 20, n - 17, n - 16, n - 4, n - 3, n - 1, *n, n + 1])
    .collect();
    v.retain(|n| *n <= 4_000_013);
    v
}

pub struct Swept {
    pub role: bip324::Role,
    pub sync: bool,
    pub padding: bool,
    pub decoys: bool,
    pub out: Vec<u8>,
    pub peer: PeerRef,
    /// (decoy, contents) of the writes.
    pub sent: Vec<(bool, Vec<u8>)>,
    /// Content bytes read.
    pub read: u64,
    #[cfg(bip324_verif)]
    pub stats: Arc<bip324_traffic::AtomicTrafficStats>,
}

/// A packet of every length of slice `i` in both directions through a shaped connection.
pub fn sweep(r: &mut Rng, i: u64) -> Result<Swept, crate::run::Fail> {
    let i = i as usize;
    let (padding, decoys) = STRATEGIES[i % 4];
    let sync = i / 4 % 2 == 0;
    let lens = sweep_lengths((i as u64 / 8) % sweep_slices());
    let role = [bip324::Role::Initiator, bip324::Role::Responder][r.below(2)];
    let mut cfg = PeerCfg::new(r, role);
    cfg.session = lens
        .iter()
        .map(|n| pkt(if r.chance(1, 5) { 0x80 } else { 0 }, &r.content(*n)))
        .collect();
    let sent: Vec<(bool, Vec<u8>)> = lens
        .iter()
        .map(|n| (false, r.content(*n)))
        .collect();
    let incoming = cfg.session.clone();
    let n = crate::net::net(r.u64());
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.starve_pending = true;
        g.rseg = crate::net::Seg::Random(5000);
    }
    let peer = crate::peer::attach(&n, cfg, None);
    let (rec, w) = rec(r.u64(), &n);
    rec.0.lock().unwrap().max_write = *r.pick(&[usize::MAX, 3000]);
    let judge = |k: usize, p: bip324::io::Payload| -> CaseResult {
        let want = &incoming[k];
        ensure!(
            p.contents() == want.contents && p.packet_type() == ptype(want.header),
            "read {k} through the shaped interface is not the peer's packet of {} bytes",
            want.contents.len()
        );
        Ok(())
    };
    let mut read = 0;
    #[cfg(bip324_verif)]
    let stats;
    if sync {
        let conn = bip324_traffic::io::ShapedProtocol::new(
            [0xF9, 0xBE, 0xB4, 0xD9],
            role,
            config(padding, decoys),
            crate::net::R(n.clone()),
            w,
        );
        let mut conn = match conn {
            Ok(x) => x,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        #[cfg(bip324_verif)]
        {
            stats = conn.verif_stats();
        }
        for (k, (_, m)) in sent.iter().enumerate() {
            if let Err(e) = conn.write(&bip324::io::Payload::genuine(m.clone())) {
                vio!("shaped write of {} bytes: {}", m.len(), err_class(&e));
            }
            match conn.read() {
                Ok(p) => {
                    read += p.contents().len() as u64;
                    judge(k, p)?
                }
                Err(e) => vio!("shaped read of {} bytes: {}", m.len(), err_class(&e)),
            }
        }
        drop(conn);
    } else {
        let rt = runtime();
        let conn = rt.block_on(bip324_traffic::futures::ShapedProtocol::new(
            [0xF9, 0xBE, 0xB4, 0xD9],
            role,
            config(padding, decoys),
            crate::net::R(n.clone()),
            w,
        ));
        let mut conn = match conn {
            Ok(x) => x,
            Err(e) => vio!("shaped handshake: {}", err_class(&e)),
        };
        #[cfg(bip324_verif)]
        {
            stats = conn.verif_stats();
        }
        let res: CaseResult = rt.block_on(async {
            for (k, (_, m)) in sent.iter().enumerate() {
                if let Err(e) = conn.write(&bip324::io::Payload::genuine(m.clone())).await {
                    vio!("shaped write of {} bytes: {}", m.len(), err_class(&e));
                }
                match conn.read().await {
                    Ok(p) => {
                        read += p.contents().len() as u64;
                        judge(k, p)?
                    }
                    Err(e) => vio!("shaped read of {} bytes: {}", m.len(), err_class(&e)),
                }
            }
            drop(conn);
            settle(&rec, 1000).await;
            Ok(())
        });
        res?;
    }
    let out = std::mem::take(&mut rec.0.lock().unwrap().out);
    Ok(Swept {
        role,
        sync,
        padding,
        decoys,
        out,
        peer,
        sent,
        read,
        #[cfg(bip324_verif)]
        stats,
    })
}
