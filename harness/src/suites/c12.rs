//! C12: V1 peers and closed connections are classified for the caller's fallback decision.

use super::t;
use crate::net::{net, Fault, Seg};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Fail, Suite, Tier};
use crate::util::{hash_bytes, hash_str, Rng};
use crate::{ensure, vio};
use bip324::io::{ProtocolError, ProtocolFailureSuggestion};
use bip324::{Error, Role};
use std::io::{self, ErrorKind};

const CLOSED: [ErrorKind; 3] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::UnexpectedEof,
];
const OTHER: [ErrorKind; 16] = [
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::OutOfMemory,
    ErrorKind::NotFound,
    ErrorKind::AddrInUse,
    ErrorKind::ConnectionRefused,
    ErrorKind::Unsupported,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NotConnected,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
];

fn suggestion(e: &ProtocolError) -> Option<bool> {
    match e {
        ProtocolError::Io(_, ProtocolFailureSuggestion::RetryV1) => Some(true),
        ProtocolError::Io(_, ProtocolFailureSuggestion::Abort) => Some(false),
        _ => None,
    }
}

fn is_v1(e: &ProtocolError) -> bool {
    matches!(e, ProtocolError::Internal(Error::V1Protocol))
}

/// The peer's first 64 bytes start with the magic, or nearly so.
fn prefix(c: &mut Case) -> CaseResult {
    let iface = (c.idx % 3) as usize;
    let role = ROLES[(c.idx / 3 % 2) as usize];
    let shape = (c.idx / 6 % 8) as usize;
    let r = &mut c.rng;
    let magic: [u8; 4] = match r.below(4) {
        0 => MAGIC,
        1 => [0x0B, 0x11, 0x09, 0x07],
        2 => [0xFA, 0xBF, 0xB5, 0xDA],
        _ => r.arr(),
    };
    let mut m: [u8; 64] = r.arr();
    match r.below(3) {
        0 => {
            // a genuine V1 version message header follows
            m[4..16].copy_from_slice(b"version\0\0\0\0\0");
            m[16..24].copy_from_slice(&[0x66, 0, 0, 0, 1, 2, 3, 4]);
        }
        1 => m[4..].fill(*r.pick(&[0u8, 0xff])),
        _ => {}
    }
    let v1 = match shape {
        0..=2 => {
            m[..4].copy_from_slice(&magic);
            true
        }
        3 => {
            // one bit off
            m[..4].copy_from_slice(&magic);
            m[r.below(4)] ^= 1 << r.below(8);
            false
        }
        4 => {
            // one byte late
            m[1..5].copy_from_slice(&magic);
            m[..4] == magic
        }
        5 => {
            m[..4].copy_from_slice(&magic);
            m[..4].reverse();
            m[..4] == magic
        }
        6 => {
            // another network's magic
            m[..4].copy_from_slice(r.pick(&[
                [0xF9, 0xBE, 0xB4, 0xD9],
                [0x0B, 0x11, 0x09, 0x07],
                [0x0A, 0x03, 0xCF, 0x40],
                [0x1C, 0x16, 0x3F, 0x28],
                [0xFA, 0xBF, 0xB5, 0xDA],
                [0, 0, 0, 0],
            ]));
            m[..4] == magic
        }
        _ => {
            // three bytes agree
            m[..4].copy_from_slice(&magic);
            let k = r.below(4);
            m[k] = m[k].wrapping_add(1 + r.below(255) as u8);
            false
        }
    };
    let n = r.below(300);
    let rest = r.bytes(n);
    let name = ["low level", "sync", "async"][iface];
    if iface == 0 {
        let secret = rand_secret(r);
        let mut kb = [0u8; 64];
        let h = initialized(magic, role, secret).send_key(None, &mut kb).unwrap();
        match h.receive_key(m) {
            Err(Error::V1Protocol) => ensure!(
                v1,
                "low level {role:?}: first bytes {:02x?} reported as V1 on magic {magic:02x?}",
                &m[..6]
            ),
            Ok(_) => ensure!(
                !v1,
                "low level {role:?}: V1 prefix {:02x?} not detected on magic {magic:02x?}",
                &m[..6]
            ),
            Err(e) => vio!("low level {role:?}: receive_key of {:02x?}.. gives {e:?}", &m[..6]),
        }
    } else {
        let net = net(r.u64());
        {
            let mut g = net.lock().unwrap();
            g.log = false;
            g.push(&m);
            g.push(&rest);
            g.eof = true;
            g.rseg = match r.below(4) {
                0 => Seg::All,
                1 => Seg::Fixed(1),
                2 => Seg::First(r.range(1, 63)),
                _ => Seg::Random(30),
            };
        }
        match Conn::open(KINDS[iface - 1], magic, role, None, None, &net) {
            Ok(_) => vio!("{name} handshake with 64 arbitrary bytes completed"),
            Err(e) => {
                ensure!(
                    is_v1(&e) == v1,
                    "{name} {role:?}: first bytes {:02x?} on magic {magic:02x?} give {}, V1 peer: {v1}",
                    &m[..6],
                    err_class(&e)
                );
                if !v1 {
                    ensure!(
                        suggestion(&e) == Some(true),
                        "{name} {role:?}: peer closing after {} bytes gives {}",
                        64 + n,
                        err_class(&e)
                    );
                }
            }
        }
    }
    c.eval();
    c.sig(&[0, iface as u64, role_init(role) as u64, shape as u64, hash_bytes(&m[..8])]);
    c.count(if v1 { "V1 prefixes" } else { "near misses of V1 prefixes" }, 1);
    c.sample(|| format!("{name} {role:?}, magic {magic:02x?}, peer starts with {:02x?}, V1 {v1}", &m[..6]));
    Ok(())
}

/// An honest V2 peer whose key nearly starts with the network's magic completes.
fn honest(c: &mut Case) -> CaseResult {
    let iface = (c.idx % 3) as usize;
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let mut cfg = PeerCfg::new(r, role);
    let mut magic: [u8; 4] = cfg.enc[..4].try_into().unwrap();
    let k = r.below(4);
    match r.below(3) {
        0 => magic[k] ^= 1 << r.below(8),
        1 => magic[k] = magic[k].wrapping_add(1 + r.below(255) as u8),
        _ => {
            magic = cfg.enc[60..].try_into().unwrap();
            if magic[..] == cfg.enc[..4] {
                magic[0] ^= 1;
            }
        }
    }
    cfg.magic = magic;
    if iface == 0 {
        let secret = rand_secret(r);
        let mut out = Vec::new();
        let mut st: Option<Vec<u8>> = None;
        let o = low_handshake(r, magic, role, secret, None, None, &mut out, |sent| {
            if st.is_none() {
                let mut s = session_for(&cfg, sent[..64].try_into().unwrap());
                st = Some(transcript(&cfg, &mut s).0);
            }
            st.clone().unwrap()
        });
        ensure!(
            matches!(o, LowOut::Done { .. }),
            "low level: V2 peer with key {:02x?}.. on magic {magic:02x?}: {}",
            &cfg.enc[..4],
            o.class()
        );
    } else {
        let n = net(r.u64());
        n.lock().unwrap().log = false;
        let enc = cfg.enc;
        let _p = attach(&n, cfg, None);
        if let Err(e) = Conn::open(KINDS[iface - 1], magic, role, None, None, &n) {
            vio!("V2 peer with key {:02x?}.. on magic {magic:02x?}: {}", &enc[..4], err_class(&e));
        }
    }
    c.eval();
    c.count("honest peers close to the prefix", 1);
    let s = [4, iface as u64, u32::from_le_bytes(magic) as u64];
    c.sig(&s);
    Ok(())
}

struct Shape {
    cfg: PeerCfg,
    garbage: Option<Vec<u8>>,
    decoys: OptDecoys,
}

fn shape(r: &mut Rng, role: Role) -> Shape {
    let mut cfg = PeerCfg::new(r, role);
    let n = *r.pick(&[0usize, 1, 16, 200, 255, 256, 300, 600]);
    cfg.garbage = r.bytes(n);
    let mut hs = Vec::new();
    for _ in 0..r.below(3) {
        let n = r.below(40);
        hs.push(pkt(0x80, &r.bytes(n)));
    }
    hs.push(pkt(0, b""));
    cfg.handshake = hs;
    let n = r.below(30);
    Shape {
        cfg,
        garbage: if r.coin() { None } else { Some(r.bytes(n)) },
        decoys: if r.coin() { None } else { Some(vec![r.bytes(n)]) },
    }
}

/// The connection ends or fails when the peer's stream is at one position: all positions.
fn positions(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[(c.idx / 2 % 2) as usize];
    let r = &mut c.rng;
    let sh = shape(r, role);
    // total length is independent of the keys
    let total = {
        let mut s = session_for(&sh.cfg, &sh.cfg.enc);
        transcript(&sh.cfg, &mut s).0.len()
    };
    let seg = match r.below(4) {
        0 => Seg::All,
        1 => Seg::Fixed(1),
        2 => Seg::Fixed(r.range(2, 64)),
        _ => Seg::Random(300),
    };
    let mut phases = [0u64; 4];
    for at in 0..total {
        let which = r.below(3);
        let (fault, retry): (Option<ErrorKind>, bool) = match which {
            0 => (None, true),
            1 => (Some(*r.pick(&CLOSED)), true),
            _ => (Some(*r.pick(&OTHER)), false),
        };
        let n = net(r.u64());
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.rseg = seg.clone();
            if kind == Kind::Async {
                g.pending = *r.pick(&[0usize, 30]);
            }
            match fault {
                Some(k) => g.at_offset = Some((at, k)),
                None => g.eof = true,
            }
        }
        let cut: Option<Mangle> = if fault.is_none() {
            Some(Box::new(move |mut v, _l, _s| {
                v.truncate(at);
                v
            }))
        } else {
            None
        };
        let _p = attach(&n, sh.cfg.clone(), cut);
        let res = Conn::open(kind, MAGIC, role, sh.garbage.clone(), sh.decoys.clone(), &n);
        let what = match fault {
            None => "closing".to_string(),
            Some(k) => format!("failing with {k:?}"),
        };
        match res {
            Ok(_) => vio!(
                "{kind:?} {role:?}: handshake completed with the connection {what} after {at} of {total} bytes"
            ),
            Err(ProtocolError::Io(e, s)) => {
                if e.to_string().contains(crate::net::STARVED) {
                    return Err(Fail::Violation(format!(
                        "{kind:?} {role:?}: connection {what} after {at} of {total} bytes was swallowed"
                    )));
                }
                let got = matches!(s, ProtocolFailureSuggestion::RetryV1);
                ensure!(
                    got == retry,
                    "{kind:?} {role:?}: connection {what} after {at} of {total} bytes suggests {s:?}"
                );
                match fault {
                    Some(k) => ensure!(
                        e.kind() == k,
                        "{kind:?} {role:?}: connection {what} after {at} bytes reported as {:?}",
                        e.kind()
                    ),
                    None => ensure!(
                        CLOSED.contains(&e.kind()),
                        "{kind:?} {role:?}: end of stream after {at} bytes reported as {:?}",
                        e.kind()
                    ),
                }
            }
            Err(e) => vio!(
                "{kind:?} {role:?}: connection {what} after {at} of {total} bytes gives {}",
                err_class(&e)
            ),
        }
        let g = sh.cfg.garbage.len();
        let ph = if at < 64 {
            0
        } else if at < 64 + g + 16 {
            1
        } else {
            2
        };
        phases[ph] += 1;
        c.local.evals += 1;
        let mut h = hash_str("pos");
        for x in [
            kind as u64,
            role_init(role) as u64,
            at as u64,
            fault.map(|k| hash_str(&format!("{k:?}"))).unwrap_or(0),
            g as u64,
        ] {
            h = crate::util::mix(h, x);
        }
        c.local.sigs.insert(h);
    }
    c.count("failures during the key", phases[0]);
    c.count("failures during garbage", phases[1]);
    c.count("failures during version packets", phases[2]);
    c.sample(|| format!("{kind:?} {role:?}: all {total} positions, segmentation {seg:?}"));
    Ok(())
}

/// Write and flush failures of each operation.
fn writes(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[(c.idx / 2 % 2) as usize];
    let r = &mut c.rng;
    let sh = shape(r, role);
    let wseg = match r.below(3) {
        0 => Seg::All,
        1 => Seg::Fixed(7),
        _ => Seg::Random(60),
    };
    let seed = r.u64();
    let mut fired_total = 0;
    for flush in [false, true] {
        for k in 0u64..60 {
            let retry = r.coin();
            let e = if retry { *r.pick(&CLOSED) } else { *r.pick(&OTHER) };
            let n = net(seed);
            {
                let mut g = n.lock().unwrap();
                g.log = false;
                g.wseg = wseg.clone();
                if flush {
                    g.ffault = Some((k, Fault::Err(e)));
                } else {
                    g.wfault = Some((k, Fault::Err(e)));
                }
            }
            let _p = attach(&n, sh.cfg.clone(), None);
            let res = Conn::open(kind, MAGIC, role, sh.garbage.clone(), sh.decoys.clone(), &n);
            let fired = {
                let g = n.lock().unwrap();
                if flush {
                    g.flushes > k
                } else {
                    g.writes > k
                }
            };
            if !fired {
                if let Err(e) = res {
                    vio!("{kind:?} {role:?}: honest handshake fails: {}", err_class(&e));
                }
                break;
            }
            let op = if flush { "flush" } else { "write" };
            match res {
                Ok(_) => vio!("{kind:?} {role:?}: {op} {k} failing with {e:?} was swallowed"),
                Err(ProtocolError::Io(x, s)) => {
                    ensure!(
                        x.kind() == e && matches!(s, ProtocolFailureSuggestion::RetryV1) == retry,
                        "{kind:?} {role:?}: {op} {k} failing with {e:?} gives {:?}, {s:?}",
                        x.kind()
                    );
                }
                Err(x) => vio!("{kind:?} {role:?}: {op} {k} failing with {e:?} gives {}", err_class(&x)),
            }
            c.local.evals += 1;
            let mut h = hash_str(op);
            for x in [kind as u64, role_init(role) as u64, k, hash_str(&format!("{e:?}"))] {
                h = crate::util::mix(h, x);
            }
            c.local.sigs.insert(h);
            fired_total += 1;
        }
    }
    c.count("write and flush failures", fired_total);
    Ok(())
}

/// The public conversion itself.
fn conversion(c: &mut Case) -> CaseResult {
    for k in CLOSED {
        let e = ProtocolError::from(io::Error::new(k, "x"));
        ensure!(suggestion(&e) == Some(true), "conversion of {k:?} gives {}", err_class(&e));
        let e = ProtocolError::from(io::Error::from(k));
        ensure!(suggestion(&e) == Some(true), "conversion of {k:?} gives {}", err_class(&e));
        c.evals(2);
        c.sig(&[hash_str(&format!("{k:?}"))]);
    }
    for k in OTHER {
        let e = ProtocolError::from(io::Error::new(k, "x"));
        ensure!(suggestion(&e) == Some(false), "conversion of {k:?} gives {}", err_class(&e));
        match &e {
            ProtocolError::Io(e, _) => ensure!(e.kind() == k, "{k:?} converted to {:?}", e.kind()),
            _ => vio!("{k:?} converted to {}", err_class(&e)),
        }
        c.eval();
        c.sig(&[hash_str(&format!("{k:?}"))]);
    }
    // errors of the operating system
    for (os, retry) in [(libc::ECONNRESET, true), (libc::ECONNABORTED, true), (libc::ETIMEDOUT, false), (libc::EACCES, false)] {
        let e = ProtocolError::from(io::Error::from_raw_os_error(os));
        ensure!(suggestion(&e) == Some(retry), "conversion of OS error {os} gives {}", err_class(&e));
        c.eval();
    }
    ensure!(suggestion(&ProtocolError::eof()) == Some(true), "eof() does not suggest a retry");
    c.eval();
    Ok(())
}

/// Real sockets: the peer closes with everything or something unread.
fn sockets(c: &mut Case) -> CaseResult {
    use std::io::Read;
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let io_err = |e: io::Error| Fail::Inconclusive(format!("loopback socket: {e}"));
    let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(io_err)?;
    let addr = l.local_addr().map_err(io_err)?;
    let take = *r.pick(&[0usize, 1, 63, 64]);
    let glen = *r.pick(&[0usize, 0, 10, 4095]);
    let h = std::thread::Builder::new()
        .name("vh-job".into())
        .spawn(move || {
            if let Ok((mut s, _)) = l.accept() {
                let mut b = vec![0u8; take];
                let _ = s.read_exact(&mut b);
            }
        })
        .map_err(io_err)?;
    let s = std::net::TcpStream::connect(addr).map_err(io_err)?;
    s.set_read_timeout(Some(std::time::Duration::from_secs(60))).map_err(io_err)?;
    let s2 = s.try_clone().map_err(io_err)?;
    let g = if glen == 0 { None } else { Some(vec![7u8; glen]) };
    let res = bip324::io::Protocol::new(MAGIC, role, g, None, s, s2);
    let _ = h.join();
    match res {
        Ok(_) => vio!("handshake with a peer that closed completed"),
        Err(ProtocolError::Io(e, _)) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
            return Err(Fail::Inconclusive("socket read timed out".into()))
        }
        Err(e) => ensure!(
            suggestion(&e) == Some(true),
            "peer closing its socket after reading {take} bytes gives {}",
            err_class(&e)
        ),
    }
    c.eval();
    c.count("real sockets closed", 1);
    c.sig(&[9, take as u64, glen as u64, role_init(role) as u64]);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C12",
        level: "fault_enumeration",
        rule: "a case is one handshake with a crafted first message, or with one failure at one byte position or write operation (positions are enumerated, kinds drawn); distinct by interface, role, position and kind",
        assumptions: vec![
            "Interrupted, WouldBlock and BrokenPipe are left out: they are retried or have no classification promised",
        ],
        families: vec![
            fam("prefix", t(tier, 24_000, 192_000), prefix),
            fam("honest", t(tier, 4_800, 38_400), honest),
            fam("positions", t(tier, 384, 3_072), positions),
            fam("writes", t(tier, 480, 3_840), writes),
            fam("conversion", 1, conversion),
            fam("sockets", t(tier, 60, 400), sockets),
        ],
        require: vec![
            "V1 prefixes",
            "near misses of V1 prefixes",
            "failures during the key",
            "failures during garbage",
            "failures during version packets",
            "write and flush failures",
        ],
    }
}
