//! C05: a handshake completes only on an intact, authenticated transcript.

use super::t;
use crate::net::{net, Seg};
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::{first_diff, hash_str, Rng};
use crate::{ensure, vio};
use bip324::Role;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Iface {
    Low,
    Sync,
    Async,
}
pub const IFACES: [Iface; 3] = [Iface::Low, Iface::Sync, Iface::Async];

/// Run one handshake of the code under test against a mangled transcript.
/// Ok(true): it completed. The second value names the outcome.
pub fn attempt(
    r: &mut Rng,
    iface: Iface,
    role: Role,
    local_magic: [u8; 4],
    local_garbage: Option<Vec<u8>>,
    cfg: PeerCfg,
    mangle: Mangle,
) -> (bool, String) {
    match iface {
        Iface::Low => {
            let secret = rand_secret(r);
            let mut out = Vec::new();
            let mut mangle = Some(mangle);
            let mut done: Option<Vec<u8>> = None;
            let o = low_handshake(
                r,
                local_magic,
                role,
                secret,
                local_garbage.as_deref(),
                None,
                &mut out,
                |sent| {
                    if let Some(d) = &done {
                        return d.clone();
                    }
                    let their: [u8; 64] = sent[..64].try_into().unwrap();
                    let mut s = session_for(&cfg, &their);
                    let (v, l) = transcript(&cfg, &mut s);
                    let v = (mangle.take().unwrap())(v, &l, &s);
                    done = Some(v.clone());
                    v
                },
            );
            (matches!(o, LowOut::Done { .. }), o.class())
        }
        _ => {
            let n = net(r.u64());
            {
                let mut g = n.lock().unwrap();
                g.log = false;
                g.rseg = match r.below(3) {
                    0 => Seg::All,
                    1 => Seg::Fixed(1 + r.below(100)),
                    _ => Seg::Random(600),
                };
                // After the transcript the connection stays open or ends.
                g.eof = r.coin();
            }
            let _p = attach(&n, cfg, Some(mangle));
            let kind = if iface == Iface::Sync { Kind::Sync } else { Kind::Async };
            match Conn::open(kind, local_magic, role, local_garbage, None, &n) {
                Ok(_) => (true, "Done".into()),
                Err(e) => (false, err_class(&e)),
            }
        }
    }
}

pub fn peer_varied(r: &mut Rng, role: Role) -> PeerCfg {
    let mut cfg = PeerCfg::varied(r, role);
    if cfg.garbage.len() > 300 && r.chance(3, 4) {
        cfg.garbage.truncate(r.below(60));
    }
    cfg
}

/// Every bit of a short transcript.
fn every_bit(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let shape = (c.idx / 6) % 3;
    let r = &mut c.rng;
    let mut cfg = PeerCfg::new(r, role);
    match shape {
        0 => {}
        1 => cfg.garbage = r.bytes(5),
        _ => {
            cfg.garbage = r.bytes(3);
            cfg.handshake = vec![pkt(0x80, b"dec"), pkt(0x80, b""), pkt(0, b"")];
        }
    }
    let len = 64 + cfg.garbage.len()
        + 16
        + cfg.handshake.iter().map(|p| p.contents.len() + 20).sum::<usize>();
    for bit in 0..len * 8 {
        let (done, out) = attempt(
            r,
            iface,
            role,
            MAGIC,
            Some(vec![7; 9]),
            cfg.clone(),
            Box::new(move |mut v, _, _| {
                assert_eq!(v.len(), len);
                v[bit / 8] ^= 1 << (bit % 8);
                v
            }),
        );
        ensure!(
            !done,
            "{iface:?} {role:?}: handshake completes although bit {bit} of the peer's {len} bytes was flipped (shape {shape})"
        );
        c.local.evals += 1;
        let h = hash_str("every_bit");
        c.local.sigs.insert(crate::util::mix(h, c.idx % 18 * 100_000 + bit as u64));
        if bit < 512 {
            *c.local.counters.entry("key_bits_flipped").or_insert(0) += 1;
        } else {
            *c.local.counters.entry("later_bits_flipped").or_insert(0) += 1;
        }
        let _ = out;
    }
    Ok(())
}

/// Random alterations of larger transcripts.
fn alter(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let mut cfg = peer_varied(r, role);
    if r.chance(2, 3) && cfg.garbage.is_empty() {
        cfg.garbage = r.bytes(4);
    }
    let op = r.below(13);
    if op >= 9 && cfg.handshake.len() < 3 {
        cfg.handshake.insert(0, pkt(0x80, b"a decoy"));
        cfg.handshake.insert(1, pkt(0x80, &r.bytes(21)));
    }
    let seed = r.u64();
    let changed = std::sync::Arc::new(std::sync::Mutex::new((false, String::new())));
    let ch = changed.clone();
    let mangle: Mangle = Box::new(move |v, l, s| {
        let mut r = Rng::new(seed);
        let full = v.clone();
        let mut v = v;
        let end = *l.hs.last().unwrap();
        let n = l.hs.len();
        let start = |i: usize| if i == 0 { l.term_end } else { l.hs[i - 1] };
        let at = r.below(end);
        let d = match op {
            0 => {
                v[at] ^= 1 << r.below(8);
                format!("bit in byte {at} flipped")
            }
            1 => {
                let x = r.u8();
                v.insert(at, x);
                format!("byte inserted at {at}")
            }
            2 => {
                v.remove(at);
                format!("byte {at} removed")
            }
            3 => {
                v.truncate(at);
                format!("truncated to {at}")
            }
            4 => {
                // in the garbage, or around it
                if l.garbage_end > 64 {
                    let a = 64 + r.below(l.garbage_end - 64);
                    match r.below(3) {
                        0 => v[a] ^= 1 + r.below(255) as u8,
                        1 => {
                            v.remove(a);
                        }
                        _ => v.insert(a, 0),
                    }
                } else {
                    v.insert(64, r.u8());
                }
                "garbage altered".into()
            }
            5 => {
                let a = l.garbage_end + r.below(16);
                v[a] ^= 1 << r.below(8);
                "terminator altered".into()
            }
            6 => {
                v.splice(l.garbage_end..l.garbage_end, s.my_term);
                "terminator twice".into()
            }
            7 => {
                v.splice(l.garbage_end..l.term_end, s.their_term);
                "the other terminator".into()
            }
            8 => {
                v.drain(64..l.garbage_end);
                "garbage removed".into()
            }
            9 => {
                let i = r.below(n);
                v.drain(start(i)..l.hs[i]);
                format!("handshake packet {i} of {n} removed")
            }
            10 => {
                let i = r.below(n);
                let p = full[start(i)..l.hs[i]].to_vec();
                v.splice(start(i)..start(i), p);
                format!("handshake packet {i} of {n} duplicated")
            }
            11 => {
                let i = r.below(n - 1);
                let a = full[start(i)..l.hs[i]].to_vec();
                let b = full[start(i + 1)..l.hs[i + 1]].to_vec();
                v.splice(start(i)..l.hs[i + 1], b.into_iter().chain(a));
                format!("handshake packets {i} and {} swapped", i + 1)
            }
            _ => {
                let i = r.below(n);
                let e = l.hs[i];
                let a = start(i) + r.below(e - start(i));
                v[a] ^= 1 + r.below(255) as u8;
                format!("byte {} of handshake packet {i} changed", a - start(i))
            }
        };
        // An alteration counts if it changes the bytes up to the end of the version packet.
        let diff = first_diff(&full[..end], &v[..v.len().min(end)]);
        *ch.lock().unwrap() = (diff.is_some(), d);
        v
    });
    let n_hs = cfg.handshake.len();
    let (done, out) = attempt(r, iface, role, MAGIC, None, cfg, mangle);
    let (is, what) = changed.lock().unwrap().clone();
    if is {
        ensure!(
            !done,
            "{iface:?} {role:?}: handshake completes although the transcript was altered: {what}"
        );
        c.sig(&[c.idx % 6, op as u64, n_hs as u64, hash_str(&what), hash_str(&out)]);
        c.count("altered_transcripts", 1);
        c.eval();
        c.sample(|| format!("{iface:?} {role:?} {what}: {out}"));
    }
    Ok(())
}

fn gx_times(s: &[u8; 32]) -> [u8; 32] {
    crate::refimpl::mul_x(s, &crate::refimpl::gx())
}

/// The peer received something else than the local key, or lacks the secret, role or network.
fn identity(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let how = (c.idx / 6) % 6;
    let r = &mut c.rng;
    let mut cfg = peer_varied(r, role);
    let what;
    let mut local = MAGIC;
    match how {
        0 | 1 => {
            let bit = if how == 0 { c.idx / 36 % 512 } else { r.below(512) as u64 };
            cfg.key_seen = Some(|k, b| k[(b / 8) as usize] ^= 1 << (b % 8));
            cfg.key_seen_arg = bit;
            what = format!("bit {bit} of the local key flipped on its way");
        }
        2 => {
            // not the negated secret either: x-only ECDH cannot tell it apart
            let old = gx_times(&cfg.secret);
            while gx_times(&cfg.secret) == old {
                cfg.secret = rand_secret(r);
            }
            what = "peer does not hold the secret of its key".into();
        }
        3 => {
            cfg.wrong_role = true;
            what = "peer in the same role".into();
        }
        4 => {
            // same role all the way, including the order of the keys in the ECDH
            cfg.is_init = !cfg.is_init;
            what = "peer believes to have the same role".into();
        }
        _ => {
            let i = r.below(4);
            match r.below(3) {
                0 => local = [0x0b, 0x11, 0x09, 0x07],
                1 => local[i] ^= 1 << r.below(8),
                _ => local = r.arr(),
            }
            if local == MAGIC || cfg.enc[..4] == local {
                return Ok(());
            }
            what = format!("networks {local:?} and {MAGIC:?}");
        }
    }
    let (done, out) = attempt(r, iface, role, local, None, cfg, Box::new(|v, _, _| v));
    ensure!(!done, "{iface:?} {role:?}: handshake completes although: {what}");
    c.sig(&[c.idx % 6, hash_str(&what), hash_str(&out)]);
    c.count("wrong_peers", 1);
    c.eval();
    c.sample(|| format!("{iface:?} {role:?} {what}: {out}"));
    Ok(())
}

/// The same curve point under another encoding is another key.
fn re_encoded(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let cfg = peer_varied(r, role);
    let sk = secp256k1::SecretKey::from_slice(&cfg.secret).unwrap();
    let e2 = secp256k1::ellswift::ElligatorSwift::from_seckey(
        &secp256k1::Secp256k1::new(),
        sk,
        Some(r.arr()),
    )
    .to_array();
    if e2 == cfg.enc || e2[..4] == MAGIC {
        return Ok(());
    }
    let (done, _) = attempt(
        r,
        iface,
        role,
        MAGIC,
        None,
        cfg,
        Box::new(move |mut v, _, _| {
            v[..64].copy_from_slice(&e2);
            v
        }),
    );
    ensure!(
        !done,
        "{iface:?} {role:?}: handshake completes although the key was replaced by another encoding of the same point"
    );
    c.count("re_encoded_keys", 1);
    c.sig(&[c.idx % 6, c.idx]);
    c.eval();
    Ok(())
}

/// Everything the local side sends comes back to it.
fn reflect(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let g = match r.below(3) {
        0 => None,
        _ => {
            let n = r.below(50);
            Some(r.bytes(n))
        }
    };
    let done = match iface {
        Iface::Low => {
            let secret = rand_secret(r);
            let mut out = Vec::new();
            let o = low_handshake(r, MAGIC, role, secret, g.as_deref(), None, &mut out, |s| {
                s.to_vec()
            });
            matches!(o, LowOut::Done { .. })
        }
        _ => {
            let n = net(r.u64());
            let mut at = 0;
            n.lock().unwrap().feeder = Some(Box::new(move |out| {
                let v = out[at..].to_vec();
                at = out.len();
                v
            }));
            let kind = if iface == Iface::Sync { Kind::Sync } else { Kind::Async };
            Conn::open(kind, MAGIC, role, g, None, &n).is_ok()
        }
    };
    ensure!(!done, "{iface:?} {role:?}: handshake with its own reflection completes");
    c.count("reflections", 1);
    c.sig(&[c.idx % 6, c.idx]);
    c.eval();
    Ok(())
}

/// Exactly the first packet authenticates the garbage.
fn aad(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let mode = (c.idx / 6) % 5;
    let r = &mut c.rng;
    let mut cfg = PeerCfg::new(r, role);
    let gl = *r.pick(&[1usize, 2, 15, 16, 17, 64, 300, 4095]);
    cfg.garbage = r.content(gl);
    let decoys = match mode {
        0 => r.below(4),
        1 => r.below(4),
        _ => 1 + r.below(4),
    };
    cfg.handshake = (0..decoys)
        .map(|_| {
            let n = r.small_size();
            pkt(0x80, &r.content(n))
        })
        .chain([pkt(0, b"")])
        .collect();
    let (ok, what) = match mode {
        0 => (true, "first packet".to_string()),
        1 => {
            cfg.aad = Aad::Never;
            (false, "no packet".into())
        }
        2 => {
            let k = 1 + r.below(decoys);
            cfg.aad = Aad::Nth(k);
            (false, format!("packet {k}"))
        }
        3 => {
            cfg.aad = Aad::All;
            (false, "all packets".into())
        }
        _ => {
            cfg.aad = Aad::Nth(decoys);
            (false, "version packet only".into())
        }
    };
    let (done, out) = attempt(r, iface, role, MAGIC, None, cfg, Box::new(|v, _, _| v));
    if done != ok {
        vio!("{iface:?} {role:?}: {decoys} decoys, {gl} bytes of garbage authenticated by {what}: outcome {out}");
    }
    c.sig(&[c.idx % 6, mode, decoys as u64, gl as u64]);
    c.count(if ok { "garbage_authenticated_by_first" } else { "garbage_authenticated_wrongly" }, 1);
    c.eval();
    Ok(())
}

/// Empty garbage needs empty associated data.
fn empty_aad(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let mut cfg = PeerCfg::new(r, role);
    // The peer authenticates garbage it did not send.
    let n = 1 + r.below(30);
    cfg.garbage = r.bytes(n);
    let (done, _) = attempt(
        r,
        iface,
        role,
        MAGIC,
        None,
        cfg,
        Box::new(|mut v, l, _| {
            v.drain(64..l.garbage_end);
            v
        }),
    );
    ensure!(!done, "{iface:?} {role:?}: {n} bytes of removed garbage not noticed");
    c.count("garbage_removed", 1);
    c.sig(&[c.idx % 6, n as u64]);
    c.eval();
    Ok(())
}

/// Unaltered transcripts complete.
fn control(c: &mut Case) -> CaseResult {
    let iface = IFACES[(c.idx % 3) as usize];
    let role = ROLES[((c.idx / 3) % 2) as usize];
    let r = &mut c.rng;
    let cfg = PeerCfg::varied(r, role);
    let what = format!("{} garbage, {} packets", cfg.garbage.len(), cfg.handshake.len());
    let (done, out) = attempt(r, iface, role, MAGIC, None, cfg, Box::new(|v, _, _| v));
    ensure!(done, "{iface:?} {role:?}: honest handshake ({what}) fails: {out}");
    c.count("control_handshakes", 1);
    c.eval();
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C05",
        level: "exploration",
        rule: "Complete handshakes of the real code (low-level, sync, async, both roles) against a reference peer whose transcript, key, secret, role, network or garbage authentication is altered in transit; completion is the violation. Distinct = different interface, alteration and outcome.",
        assumptions: vec!["Bytes after the peer's version packet do not belong to the handshake and are covered by C04."],
        families: vec![
            fam("every_bit", t(tier, 90, 720), every_bit),
            fam("alter", t(tier, 30_000, 240_000), alter),
            fam("identity", t(tier, 18_000, 144_000), identity),
            fam("re_encoded", t(tier, 1_500, 12_000), re_encoded),
            fam("reflect", t(tier, 1_500, 12_000), reflect),
            fam("aad", t(tier, 6_000, 48_000), aad),
            fam("empty_aad", t(tier, 600, 4_800), empty_aad),
            fam("control", t(tier, 1_500, 12_000), control),
        ],
        require: vec!["key_bits_flipped", "later_bits_flipped", "altered_transcripts", "wrong_peers", "re_encoded_keys", "reflections", "garbage_authenticated_by_first", "garbage_authenticated_wrongly", "garbage_removed", "control_handshakes"],
    }
}
