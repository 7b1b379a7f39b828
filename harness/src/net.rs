//! Scripted transport with an operation log, segmentation, faults, not-ready results and a lazily
//! evaluated remote peer. Usable through the blocking and the tokio traits.

use crate::run::{HARNESS, MONITOR};
use crate::util::Rng;
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub const STARVED: &str = "VH-STARVED";

#[derive(Clone, Debug)]
pub enum Seg {
    /// Everything that is available and fits.
    All,
    /// At most n bytes per read.
    Fixed(usize),
    /// A random number of bytes up to n.
    Random(usize),
    /// Reads never cross these absolute stream offsets (then `All`).
    Cuts(Vec<usize>),
    /// First read as given, the rest everything.
    First(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Err(ErrorKind),
    /// read/write returning Ok(0).
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read { asked: usize, got: usize },
    Write { asked: usize, took: usize },
    Flush,
    Shutdown,
    ReadErr(ErrorKind),
    WriteErr(ErrorKind),
    FlushErr(ErrorKind),
    Pending(char),
}

pub type Feeder = Box<dyn FnMut(&[u8]) -> Vec<u8> + Send>;

pub struct Net {
    pub inbuf: VecDeque<u8>,
    pub in_off: usize,
    /// No more bytes will come: reads at the end give Ok(0).
    pub eof: bool,
    /// Error given instead of Ok(0) at the end.
    pub end_err: Option<ErrorKind>,
    pub out: Vec<u8>,
    pub flushed: usize,
    pub ops: Vec<Op>,
    pub log: bool,
    pub feeder: Option<Feeder>,
    pub rseg: Seg,
    /// Accept at most that many bytes per write (None: all).
    pub wseg: Seg,
    pub rng: Rng,
    pub reads: u64,
    pub writes: u64,
    pub flushes: u64,
    /// Fault at this read/write/flush operation (counted from 0); repeated from there on if sticky.
    pub rfault: Option<(u64, Fault)>,
    pub wfault: Option<(u64, Fault)>,
    pub ffault: Option<(u64, Fault)>,
    pub sticky: bool,
    /// Probability in percent of an Interrupted error (blocking) before a read/write.
    pub interrupt: usize,
    /// Probability in percent of a not-ready result (async).
    pub pending: usize,
    /// Every pending result waits for the executor to deliver the wake-up.
    pub defer_wake: bool,
    pub rwaker: Option<Waker>,
    pub wwaker: Option<Waker>,
    pub eof_reads: u64,
    pub starved: u64,
    pub dropped_reader: bool,
    pub dropped_writer: bool,
    /// Monitor: everything written must be flushed before waiting for the remote.
    pub check_flush_before_read: bool,
    pub unflushed_reads: u64,
    last_pending: bool,
    wlast_pending: bool,
    pub pendings: u64,
    pub interrupts: u64,
    /// In-stream faults: read offset -> error given once when that offset is reached.
    pub at_offset: Option<(usize, ErrorKind)>,
    /// Cap on reads to detect endless loops.
    pub max_ops: u64,
    pub buffered_until_flush: bool,
    /// When set, a read with nothing available is Pending forever instead of STARVED (async).
    pub starve_pending: bool,
    pub bytes_read: usize,
}

impl Net {
    pub fn new(seed: u64) -> Self {
        Net {
            inbuf: VecDeque::new(),
            in_off: 0,
            eof: false,
            end_err: None,
            out: Vec::new(),
            flushed: 0,
            ops: Vec::new(),
            log: true,
            feeder: None,
            rseg: Seg::All,
            wseg: Seg::All,
            rng: Rng::new(seed),
            reads: 0,
            writes: 0,
            flushes: 0,
            rfault: None,
            wfault: None,
            ffault: None,
            sticky: false,
            interrupt: 0,
            pending: 0,
            defer_wake: false,
            rwaker: None,
            wwaker: None,
            eof_reads: 0,
            starved: 0,
            dropped_reader: false,
            dropped_writer: false,
            check_flush_before_read: true,
            unflushed_reads: 0,
            last_pending: false,
            wlast_pending: false,
            pendings: 0,
            interrupts: 0,
            at_offset: None,
            max_ops: 200_000_000,
            buffered_until_flush: false,
            starve_pending: false,
            bytes_read: 0,
        }
    }
    fn op(&mut self, o: Op) {
        if self.log {
            crate::alloc::unmeasured(|| self.ops.push(o));
        }
    }
    fn feed(&mut self) {
        if self.inbuf.is_empty() {
            if let Some(mut f) = self.feeder.take() {
                crate::alloc::unmeasured(|| {
                    let b = f(if self.buffered_until_flush {
                        &self.out[..self.flushed]
                    } else {
                        &self.out
                    });
                    self.inbuf.extend(b);
                });
                self.feeder = Some(f);
            }
        }
    }
    pub fn push(&mut self, b: &[u8]) {
        self.inbuf.extend(b.iter().copied());
        if let Some(w) = self.rwaker.take() {
            w.wake();
        }
    }
    fn seg(&mut self, write: bool, avail: usize) -> usize {
        let off = if write { self.out.len() } else { self.in_off };
        let s = if write { &self.wseg } else { &self.rseg };
        let n = match s {
            Seg::All => avail,
            Seg::Fixed(n) => avail.min((*n).max(1)),
            Seg::Random(n) => {
                let n = *n;
                avail.min(1 + self.rng.below(n.max(1)))
            }
            Seg::Cuts(c) => {
                let next = c.iter().copied().find(|x| *x > off);
                match next {
                    Some(x) => avail.min(x - off),
                    None => avail,
                }
            }
            Seg::First(n) => {
                let n = *n;
                if off < n {
                    avail.min(n - off)
                } else {
                    avail
                }
            }
        };
        n.max(1)
    }
    fn hits(f: Option<(u64, Fault)>, n: u64, sticky: bool) -> Option<Fault> {
        match f {
            Some((k, f)) if k == n || (sticky && n > k) => Some(f),
            _ => None,
        }
    }
    fn spin(&self) {
        if self.reads + self.writes + self.flushes > self.max_ops {
            panic!("{MONITOR}endless loop: more than {} transport operations", self.max_ops);
        }
        if self.eof_reads > 256 {
            panic!("{MONITOR}endless loop: {} reads after end of stream", self.eof_reads);
        }
        if self.starved > 256 {
            panic!("{MONITOR}endless loop: {} reads ignoring a transport error", self.starved);
        }
    }
    /// None: nothing available now.
    fn do_read(&mut self, buf: &mut [u8]) -> Option<io::Result<usize>> {
        self.spin();
        if buf.is_empty() {
            return Some(Ok(0));
        }
        self.feed();
        if self.check_flush_before_read && self.flushed < self.out.len() {
            self.unflushed_reads += 1;
        }
        let k = self.reads;
        if let Some(f) = Self::hits(self.rfault, k, self.sticky) {
            self.reads += 1;
            return Some(match f {
                Fault::Err(e) => {
                    self.op(Op::ReadErr(e));
                    if self.sticky {
                        self.starved += 1;
                    }
                    Err(e.into())
                }
                Fault::Zero => {
                    self.op(Op::Read {
                        asked: buf.len(),
                        got: 0,
                    });
                    self.eof_reads += 1;
                    Ok(0)
                }
            });
        }
        if let Some((o, e)) = self.at_offset {
            if self.in_off == o {
                self.at_offset = None;
                self.reads += 1;
                self.op(Op::ReadErr(e));
                return Some(Err(e.into()));
            }
        }
        if self.inbuf.is_empty() {
            if let Some(e) = self.end_err {
                self.reads += 1;
                self.starved += 1;
                self.op(Op::ReadErr(e));
                return Some(Err(e.into()));
            }
            if self.eof {
                self.reads += 1;
                self.eof_reads += 1;
                self.op(Op::Read {
                    asked: buf.len(),
                    got: 0,
                });
                return Some(Ok(0));
            }
            return None;
        }
        self.reads += 1;
        let avail = self.inbuf.len().min(buf.len());
        let mut n = self.seg(false, avail);
        if let Some((o, _)) = self.at_offset {
            if self.in_off < o {
                n = n.min(o - self.in_off);
            }
        }
        let (a, b) = self.inbuf.as_slices();
        let x = n.min(a.len());
        buf[..x].copy_from_slice(&a[..x]);
        buf[x..n].copy_from_slice(&b[..n - x]);
        self.inbuf.drain(..n);
        self.in_off += n;
        self.bytes_read += n;
        self.op(Op::Read {
            asked: buf.len(),
            got: n,
        });
        Some(Ok(n))
    }
    fn do_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.spin();
        if buf.is_empty() {
            return Ok(0);
        }
        let k = self.writes;
        self.writes += 1;
        if let Some(f) = Self::hits(self.wfault, k, self.sticky) {
            return match f {
                Fault::Err(e) => {
                    self.op(Op::WriteErr(e));
                    if self.sticky {
                        self.starved += 1;
                    }
                    Err(e.into())
                }
                Fault::Zero => {
                    self.op(Op::Write {
                        asked: buf.len(),
                        took: 0,
                    });
                    Ok(0)
                }
            };
        }
        let n = self.seg(true, buf.len());
        crate::alloc::unmeasured(|| self.out.extend_from_slice(&buf[..n]));
        self.op(Op::Write {
            asked: buf.len(),
            took: n,
        });
        Ok(n)
    }
    fn do_flush(&mut self) -> io::Result<()> {
        self.spin();
        let k = self.flushes;
        self.flushes += 1;
        if let Some(Fault::Err(e)) = Self::hits(self.ffault, k, self.sticky) {
            self.op(Op::FlushErr(e));
            if self.sticky {
                self.starved += 1;
            }
            return Err(e.into());
        }
        self.flushed = self.out.len();
        self.op(Op::Flush);
        Ok(())
    }
    /// Bytes the remote can see.
    pub fn visible(&self) -> &[u8] {
        if self.buffered_until_flush {
            &self.out[..self.flushed]
        } else {
            &self.out
        }
    }
}

pub type Shared = Arc<Mutex<Net>>;

pub struct R(pub Shared);
pub struct W(pub Shared);

impl Drop for R {
    fn drop(&mut self) {
        if let Ok(mut n) = self.0.lock() {
            n.dropped_reader = true;
        }
    }
}
impl Drop for W {
    fn drop(&mut self) {
        if let Ok(mut n) = self.0.lock() {
            n.dropped_writer = true;
        }
    }
}

/// A cheap error that does not count as harness allocation.
fn starved() -> io::Error {
    io::Error::new(ErrorKind::Other, STARVED)
}

impl io::Read for R {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::pipe::sniff(buf);
        let mut n = self.0.lock().unwrap();
        if n.interrupt > 0 && !n.last_pending {
            let p = n.interrupt;
            if n.rng.chance(p, 100) {
                n.last_pending = n.rng.coin();
                n.interrupts += 1;
                n.op(Op::ReadErr(ErrorKind::Interrupted));
                return Err(ErrorKind::Interrupted.into());
            }
        }
        n.last_pending = false;
        match n.do_read(buf) {
            Some(r) => r,
            None => {
                n.starved += 1;
                n.op(Op::Pending('r'));
                Err(starved())
            }
        }
    }
}

impl io::Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = self.0.lock().unwrap();
        if n.interrupt > 0 && !n.wlast_pending {
            let p = n.interrupt;
            if n.rng.chance(p, 100) {
                n.wlast_pending = n.rng.coin();
                n.interrupts += 1;
                n.op(Op::WriteErr(ErrorKind::Interrupted));
                return Err(ErrorKind::Interrupted.into());
            }
        }
        n.wlast_pending = false;
        n.do_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().do_flush()
    }
}

fn not_ready(n: &mut Net, cx: &mut Context<'_>, write: bool) -> bool {
    if n.pending == 0 {
        return false;
    }
    let was = if write { n.wlast_pending } else { n.last_pending };
    if was && n.pending >= 100 {
        // "100": exactly one not-ready result before every operation
        if write {
            n.wlast_pending = false;
        } else {
            n.last_pending = false;
        }
        return false;
    }
    let p = n.pending;
    if p < 100 && !n.rng.chance(p, 100) {
        return false;
    }
    if write {
        n.wlast_pending = true;
    } else {
        n.last_pending = true;
    }
    n.pendings += 1;
    n.op(Op::Pending(if write { 'w' } else { 'r' }));
    if n.defer_wake {
        crate::alloc::unmeasured(|| {
            if write {
                n.wwaker = Some(cx.waker().clone());
            } else {
                n.rwaker = Some(cx.waker().clone());
            }
        });
    } else {
        cx.waker().wake_by_ref();
    }
    true
}

impl AsyncRead for R {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let mut n = self.0.lock().unwrap();
        if not_ready(&mut n, cx, false) {
            return Poll::Pending;
        }
        let b = buf.initialize_unfilled();
        match n.do_read(b) {
            Some(Ok(k)) => {
                buf.advance(k);
                Poll::Ready(Ok(()))
            }
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => {
                if n.starve_pending {
                    n.rwaker = Some(cx.waker().clone());
                    n.op(Op::Pending('r'));
                    Poll::Pending
                } else {
                    n.starved += 1;
                    n.op(Op::Pending('r'));
                    Poll::Ready(Err(starved()))
                }
            }
        }
    }
}

impl AsyncWrite for W {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let mut n = self.0.lock().unwrap();
        if not_ready(&mut n, cx, true) {
            return Poll::Pending;
        }
        Poll::Ready(n.do_write(buf))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut n = self.0.lock().unwrap();
        if not_ready(&mut n, cx, true) {
            return Poll::Pending;
        }
        Poll::Ready(n.do_flush())
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut n = self.0.lock().unwrap();
        n.op(Op::Shutdown);
        Poll::Ready(Ok(()))
    }
}

pub fn net(seed: u64) -> Shared {
    Arc::new(Mutex::new(Net::new(seed)))
}

// ---------------------------------------------------------------- mini executor

use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::Wake;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub enum Polled<T> {
    Ready(T, u64),
    /// Dropped at the requested poll.
    Cancelled,
    /// Not woken although the transport could make progress: a lost wake-up, or nothing left to
    /// wait for.
    Stuck,
}

/// Poll `f` until ready; drop it when `cancel_at` polls returned Pending. Polls only after a
/// wake-up; wake-ups held back by the transports in `nets` are delivered when nothing else runs.
pub fn drive<F: Future>(f: F, nets: &[&Shared], cancel_at: Option<u64>) -> Polled<F::Output> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    let mut polls = 0u64;
    loop {
        if !flag.0.swap(false, Ordering::SeqCst) {
            let mut any = false;
            for n in nets {
                let (a, b) = {
                    let mut g = n.lock().unwrap();
                    if g.starve_pending && g.inbuf.is_empty() && !g.eof && g.feeder.is_none() {
                        (None, g.wwaker.take())
                    } else {
                        (g.rwaker.take(), g.wwaker.take())
                    }
                };
                for w in [a, b].into_iter().flatten() {
                    any = true;
                    w.wake();
                }
            }
            if !any || !flag.0.swap(false, Ordering::SeqCst) {
                return Polled::Stuck;
            }
        }
        polls += 1;
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Polled::Ready(v, polls),
            Poll::Pending => {
                if Some(polls) == cancel_at {
                    return Polled::Cancelled;
                }
            }
        }
        if polls > 100_000_000 {
            panic!("{MONITOR}endless loop: future polled {polls} times");
        }
    }
}

/// Run to completion; being stuck is a violation raised as a monitor panic.
pub fn block<F: Future>(f: F, nets: &[&Shared]) -> F::Output {
    match drive(f, nets, None) {
        Polled::Ready(v, _) => v,
        Polled::Stuck => panic!("{MONITOR}future is not woken although the transport is ready"),
        Polled::Cancelled => panic!("{HARNESS}cancelled"),
    }
}
