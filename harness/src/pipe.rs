//! Bounded byte pipes between two endpoints in the same process, usable blocking and async.

use std::collections::VecDeque;
use std::future::Future;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub struct Buf {
    pub q: VecDeque<u8>,
    pub cap: usize,
    pub wclosed: bool,
    pub rclosed: bool,
    /// At most that many bytes per read.
    pub max_read: usize,
    pub max_write: usize,
    pub stalls: u64,
    pub total: u64,
    /// Everything ever written, when recording.
    pub record: Option<Vec<u8>>,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
pub type Inner = Arc<(Mutex<Buf>, Condvar)>;
pub struct PR(pub Inner);
pub struct PW(pub Inner);

pub fn pipe(cap: usize) -> (PW, PR) {
    let i: Inner = Arc::new((
        Mutex::new(Buf {
            q: VecDeque::new(),
            cap,
            wclosed: false,
            rclosed: false,
            max_read: usize::MAX,
            max_write: usize::MAX,
            stalls: 0,
            total: 0,
            record: None,
            rw: None,
            ww: None,
        }),
        Condvar::new(),
    ));
    (PW(i.clone()), PR(i))
}

impl Buf {
    fn try_read(&mut self, b: &mut [u8]) -> Option<usize> {
        if b.is_empty() {
            return Some(0);
        }
        if self.q.is_empty() {
            if self.wclosed {
                return Some(0);
            }
            return None;
        }
        let n = b.len().min(self.q.len()).min(self.max_read);
        for (d, s) in b[..n].iter_mut().zip(self.q.drain(..n)) {
            *d = s;
        }
        if let Some(w) = self.ww.take() {
            w.wake();
        }
        Some(n)
    }
    fn try_write(&mut self, b: &[u8]) -> Option<io::Result<usize>> {
        if b.is_empty() {
            return Some(Ok(0));
        }
        if self.rclosed {
            return Some(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = self.cap.saturating_sub(self.q.len());
        if room == 0 {
            self.stalls += 1;
            return None;
        }
        let n = room.min(b.len()).min(self.max_write);
        self.q.extend(b[..n].iter().copied());
        self.total += n as u64;
        if let Some(r) = &mut self.record {
            r.extend_from_slice(&b[..n]);
        }
        if let Some(w) = self.rw.take() {
            w.wake();
        }
        Some(Ok(n))
    }
}

/// A transport may look into the buffer it is given, as it is an initialized one. The branch is
/// for the memory sanitizer.
pub fn sniff(b: &[u8]) {
    let n = b.len();
    let sum = b[..n.min(16)].iter().chain(&b[n - n.min(16)..]).fold(0u32, |s, x| s + u32::from(*x));
    if std::hint::black_box(sum) > 255 * 32 {
        unreachable!();
    }
}

impl Read for PR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        sniff(b);
        let (m, c) = &*self.0;
        let mut g = m.lock().unwrap();
        loop {
            if let Some(n) = g.try_read(b) {
                c.notify_all();
                return Ok(n);
            }
            g = c.wait(g).unwrap();
        }
    }
}
impl Write for PW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let (m, c) = &*self.0;
        let mut g = m.lock().unwrap();
        loop {
            if let Some(n) = g.try_write(b) {
                c.notify_all();
                return n;
            }
            g = c.wait(g).unwrap();
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for PR {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let (m, c) = &*self.0;
        let mut g = m.lock().unwrap();
        match g.try_read(b.initialize_unfilled()) {
            Some(n) => {
                b.advance(n);
                c.notify_all();
                Poll::Ready(Ok(()))
            }
            None => {
                g.rw = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl AsyncWrite for PW {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &[u8],
    ) -> Poll<io::Result<usize>> {
        let (m, c) = &*self.0;
        let mut g = m.lock().unwrap();
        match g.try_write(b) {
            Some(n) => {
                c.notify_all();
                Poll::Ready(n)
            }
            None => {
                g.ww = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl Drop for PR {
    fn drop(&mut self) {
        let (m, c) = &*self.0;
        let mut g = m.lock().unwrap();
        g.rclosed = true;
        if let Some(w) = g.ww.take() {
            w.wake();
        }
        c.notify_all();
    }
}
impl Drop for PW {
    fn drop(&mut self) {
        let (m, c) = &*self.0;
        let mut g = m.lock().unwrap();
        g.wclosed = true;
        if let Some(w) = g.rw.take() {
            w.wake();
        }
        c.notify_all();
    }
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

/// Poll on this thread, parking between wake-ups.
pub fn park_on<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    }
}
