//! C18: handshake bytes are fresh and look random to a passive observer.

use super::t;
use crate::net::{net, Seg, R};
use crate::peer::*;
use crate::refimpl;
use crate::run::{fam, sleepy, Case, CaseResult, Fail, Suite, Tier};
use crate::shaped;
use crate::util::{hex, Rng};
use crate::{ensure, vio};
use bip324::{Handshake, Initialized, Role};
use secp256k1::ellswift::ElligatorSwift;
use secp256k1::ffi::{self, CPtr};
use secp256k1::{All, Parity, PublicKey, Secp256k1};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Deviations up to this many standard deviations count as chance (probability below 1e-13 each).
const Z: f64 = 7.5;

fn fresh(role: Role, magic: [u8; 4]) -> Result<[u8; 64], Fail> {
    let h = match Handshake::<Initialized>::new(magic, role) {
        Ok(h) => h,
        Err(e) => vio!("handshake: {e:?}"),
    };
    let mut b = [0u8; 64];
    match h.send_key(None, &mut b) {
        Ok(_) => Ok(b),
        Err(e) => vio!("send_key: {e:?}"),
    }
}

fn chi2(hist: &[u64], total: u64) -> f64 {
    let e = total as f64 / hist.len() as f64;
    let x: f64 = hist.iter().map(|h| (*h as f64 - e).powi(2) / e).sum();
    let d = (hist.len() - 1) as f64;
    // Wilson-Hilferty: a standard normal deviate
    ((x / d).cbrt() - (1.0 - 2.0 / (9.0 * d))) / (2.0 / (9.0 * d)).sqrt()
}

/// A large population of keys of independent handshakes in one process.
fn population(c: &mut Case, n: usize) -> CaseResult {
    let workers = 8;
    let magic: [u8; 4] = c.rng.arr();
    let parts: Vec<Mutex<(Vec<[u8; 64]>, Vec<[u8; 32]>)>> =
        (0..workers).map(|_| Mutex::new(Default::default())).collect();
    let jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = parts
        .iter()
        .enumerate()
        .map(|(k, out)| {
            let f: Box<dyn FnOnce() -> CaseResult + Send + '_> = Box::new(move || {
                let role = ROLES[k % 2];
                let mut keys = Vec::with_capacity(n / workers);
                let mut xs = Vec::with_capacity(n / workers);
                for _ in 0..n / workers {
                    let e = fresh(role, magic)?;
                    let p = PublicKey::from_ellswift(ElligatorSwift::from_array(e));
                    xs.push(p.x_only_public_key().0.serialize());
                    keys.push(e);
                }
                *out.lock().unwrap() = (keys, xs);
                Ok(())
            });
            f
        })
        .collect();
    crate::run::par(jobs)?;
    let mut keys = Vec::new();
    let mut xs = Vec::new();
    for p in parts {
        let (k, x) = p.into_inner().unwrap();
        keys.extend(k);
        xs.extend(x);
    }
    let n = keys.len();
    // related curve points: neighbours of one another, or small multiples of the generator
    {
        let mut sorted: Vec<[u8; 32]> = xs.clone();
        sorted.sort_unstable();
        for w in sorted.windows(2) {
            ensure!(w[0] != w[1], "two handshakes use the same key pair (x {})", hex(&w[0]));
        }
        let secp = Secp256k1::<All>::new();
        let mut one = [0u8; 32];
        one[31] = 1;
        let g = PublicKey::from_secret_key(&secp, &secp256k1::SecretKey::from_slice(&one).unwrap());
        let mut p = g;
        for k in 1..4096u32 {
            let x = p.x_only_public_key().0.serialize();
            ensure!(
                sorted.binary_search(&x).is_err(),
                "the secret key of a handshake is the number {k}"
            );
            p = p.combine(&g).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        }
        let picks = n.min(4000);
        for x in xs.iter().take(picks) {
            let base = secp256k1::XOnlyPublicKey::from_slice(x)
                .map_err(|e| Fail::Inconclusive(e.to_string()))?
                .public_key(Parity::Even);
            let mut up = base;
            let mut down = base;
            let ng = g.negate(&secp);
            for k in 1..5 {
                up = up.combine(&g).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                down = down.combine(&ng).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                for q in [&up, &down] {
                    ensure!(
                        sorted.binary_search(&q.x_only_public_key().0.serialize()).is_err(),
                        "the secret keys of two handshakes are {k} apart"
                    );
                }
            }
        }
        c.evals(n as u64 + 4095 + 8 * picks as u64);
        c.count("key pairs compared", n as u64);
    }
    // the bytes on the wire
    {
        let mut w: Vec<u64> = Vec::with_capacity(n);
        let mut near = 0u64;
        for i in 0..16 {
            // 8 byte windows never repeat, 4 byte windows as often as chance has it
            if i % 2 == 0 {
                w.clear();
                w.extend(keys.iter().map(|k| u64::from_le_bytes(k[4 * i..4 * i + 8].try_into().unwrap())));
                w.sort_unstable();
                let dup = w.windows(2).filter(|x| x[0] == x[1]).count();
                ensure!(
                    dup <= 1,
                    "bytes {}..{} of the key repeat in {dup} of {n} handshakes",
                    4 * i,
                    4 * i + 8
                );
            }
            let mut v: Vec<u32> =
                keys.iter().map(|k| u32::from_le_bytes(k[4 * i..4 * i + 4].try_into().unwrap())).collect();
            v.sort_unstable();
            near += v.windows(2).filter(|x| x[0] == x[1]).count() as u64;
        }
        let e = 16.0 * (n as f64) * (n as f64 - 1.0) / 2.0 / 4294967296.0;
        let z = (near as f64 - e) / e.max(4.0).sqrt();
        ensure!(
            z.abs() < 10.0,
            "4 byte pieces of the key coincide {near} times in {n} handshakes, {e:.0} expected"
        );
        c.evals(24);
    }
    for pos in 0..64 {
        let mut h = [0u64; 256];
        for k in &keys {
            h[k[pos] as usize] += 1;
        }
        let z = chi2(&h, n as u64);
        ensure!(
            z < Z,
            "byte {pos} of the transmitted key is not uniform over {n} handshakes (deviation {z:.1})"
        );
        c.eval();
    }
    // single bits and every pair of bits
    let words = n / 64;
    let mut cols = vec![vec![0u64; words]; 512];
    for (i, k) in keys.iter().take(words * 64).enumerate() {
        for b in 0..512 {
            if (k[b / 8] >> (b % 8)) & 1 == 1 {
                cols[b][i / 64] |= 1 << (i % 64);
            }
        }
    }
    let m = (words * 64) as f64;
    let dev = |ones: u32| (ones as f64 - m / 2.0) / (m / 4.0).sqrt();
    let worst = Mutex::new(0.0f64);
    let cols = &cols;
    let jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = (0..workers)
        .map(|k| {
            let worst = &worst;
            let f: Box<dyn FnOnce() -> CaseResult + Send + '_> = Box::new(move || {
                let mut top = 0.0f64;
                for a in (k..512).step_by(workers) {
                    let z = dev(cols[a].iter().map(|w| w.count_ones()).sum());
                    ensure!(
                        z.abs() < Z,
                        "bit {a} of the transmitted key is biased over {n} handshakes (deviation {z:.1})"
                    );
                    top = top.max(z.abs());
                    for b in a + 1..512 {
                        let z = dev(
                            cols[a]
                                .iter()
                                .zip(&cols[b])
                                .map(|(x, y)| (x ^ y).count_ones())
                                .sum(),
                        );
                        ensure!(
                            z.abs() < Z,
                            "bits {a} and {b} of the transmitted key are correlated over {n} handshakes (deviation {z:.1})"
                        );
                        top = top.max(z.abs());
                    }
                }
                let mut w = worst.lock().unwrap();
                *w = w.max(top);
                Ok(())
            });
            f
        })
        .collect();
    crate::run::par(jobs)?;
    c.evals(512 + 512 * 511 / 2);
    // one handshake after the other
    let mut flips = 0u64;
    for w in keys.windows(2) {
        for i in 0..64 {
            flips += (w[0][i] ^ w[1][i]).count_ones() as u64;
        }
    }
    let bits = ((n - 1) * 512) as f64;
    let z = (flips as f64 - bits / 2.0) / (bits / 4.0).sqrt();
    // neighbours share a key each, which at most doubles the variance
    ensure!(
        z.abs() < 2.0 * Z,
        "keys of consecutive handshakes differ in {flips} of {bits} bits (deviation {z:.1})"
    );
    c.count("bit statistics of transmitted keys", 512 + 512 * 511 / 2);
    let top = *worst.lock().unwrap();
    c.sample(|| format!("{n} keys: largest deviation of a bit or a pair of bits is {top:.2} sigma"));
    for k in keys.iter().take(200_000) {
        let s = u64::from_le_bytes(k[..8].try_into().unwrap());
        c.sig(&[1, s]);
    }
    Ok(())
}

/// Encoding with known randomness: if the result is what was transmitted, anybody can tell the
/// transmitted bytes from random ones.
fn encode(ctx: &Secp256k1<All>, p: &PublicKey, rnd: &[u8; 32]) -> [u8; 64] {
    let mut out = [0u8; 64];
    // SAFETY: buffers of the documented sizes.
    unsafe {
        ffi::secp256k1_ellswift_encode(
            ctx.ctx().as_ptr(),
            out.as_mut_ptr(),
            p.as_c_ptr(),
            rnd.as_ptr(),
        );
    }
    out
}

fn reencode(c: &mut Case) -> CaseResult {
    thread_local! {
        static SECP: Secp256k1<All> = Secp256k1::new();
    }
    let role = ROLES[(c.idx % 2) as usize];
    for i in 0..40 {
        // fresh keys, and given secrets
        let (e, fixed) = if i % 2 == 0 {
            (fresh(role, MAGIC)?, None)
        } else {
            let s = rand_secret(&mut c.rng);
            let h = initialized(MAGIC, role, s);
            let mut b = [0u8; 64];
            if let Err(e) = h.send_key(None, &mut b) {
                vio!("send_key: {e:?}");
            }
            (b, Some(s))
        };
        let p = PublicKey::from_ellswift(ElligatorSwift::from_array(e));
        let x = p.x_only_public_key().0;
        if let Some(s) = fixed {
            // the key on the wire is the key of the secret
            let want = refimpl::mul_x(&s, &refimpl::gx());
            ensure!(x.serialize() == want, "the transmitted key encodes another point");
        }
        for parity in [Parity::Even, Parity::Odd] {
            let q = x.public_key(parity);
            let comp = q.serialize();
            let xb: [u8; 32] = x.serialize();
            let mut magic32 = [0u8; 32];
            magic32[..4].copy_from_slice(&MAGIC);
            let mut counter = [0u8; 32];
            for (k, b) in counter.iter_mut().enumerate() {
                *b = k as u8;
            }
            let mut one = [0u8; 32];
            one[31] = 1;
            let mut one_le = [0u8; 32];
            one_le[0] = 1;
            let rnds: [([u8; 32], &str); 12] = [
                ([0; 32], "zero"),
                ([1; 32], "constant"),
                ([0xff; 32], "constant"),
                ([42; 32], "constant"),
                (one, "constant"),
                (one_le, "constant"),
                (counter, "constant"),
                (magic32, "network"),
                (xb, "coordinate"),
                (refimpl::sha256(&[&comp]), "hash of the point"),
                (refimpl::sha256(&[&xb]), "hash of the coordinate"),
                (e[..32].try_into().unwrap(), "first half"),
            ];
            for (rnd, what) in &rnds {
                let again = SECP.with(|s| encode(s, &q, rnd));
                ensure!(
                    again != e,
                    "the transmitted key {} is the encoding of its own point with {what} randomness: anyone can recompute it",
                    hex(&e)
                );
            }
            let again = ElligatorSwift::from_pubkey(q).to_array();
            ensure!(
                again != e,
                "the transmitted key {} is what ElligatorSwift::from_pubkey gives for its own point: anyone can recompute it",
                hex(&e)
            );
            c.evals(13);
        }
        c.count("keys re-encoded by an observer", 1);
        c.sig(&[2, u64::from_le_bytes(e[..8].try_into().unwrap())]);
    }
    Ok(())
}

/// Algebraic features an observer can compute, against uniformly random bytes.
fn features(c: &mut Case) -> CaseResult {
    let n = if c.thorough() { 60_000 } else { 6_000 };
    let workers = 8;
    let seed = c.rng.u64();
    const F: usize = 10;
    let stat = |real: bool, k: usize| -> Result<[u64; F], Fail> {
        let mut r = Rng::new(seed ^ (k as u64) << 8 ^ real as u64);
        let mut h = [0u64; F];
        for _ in 0..n / workers {
            let e = if real { fresh(ROLES[k % 2], MAGIC)? } else { r.arr() };
            let u = refimpl::fe_from(&e[..32]);
            let t = refimpl::fe_from(&e[32..]);
            let (branch, x) = refimpl::xswiftec(&e);
            h[branch] += 1;
            let ut = refimpl::mul(&u, &t);
            let feats = [
                refimpl::sqrt(&u).is_some(),
                refimpl::sqrt(&t).is_some(),
                refimpl::sqrt(&x).is_some(),
                refimpl::sqrt(&refimpl::curve_rhs(&u)).is_some(),
                refimpl::sqrt(&refimpl::curve_rhs(&t)).is_some(),
                refimpl::sqrt(&refimpl::curve_rhs(&ut)).is_some(),
                x[0] & 1 == 1,
            ];
            for (i, f) in feats.iter().enumerate() {
                h[3 + i] += *f as u64;
            }
        }
        Ok(h)
    };
    let tot = [Mutex::new([0u64; F]), Mutex::new([0u64; F])];
    let mut jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = Vec::new();
    for k in 0..workers {
        let (stat, tot) = (&stat, &tot);
        jobs.push(Box::new(move || {
            for real in [false, true] {
                let h = stat(real, k)?;
                let mut t = tot[real as usize].lock().unwrap();
                for i in 0..F {
                    t[i] += h[i];
                }
            }
            Ok(())
        }));
    }
    crate::run::par(jobs)?;
    let (base, real) = (*tot[0].lock().unwrap(), *tot[1].lock().unwrap());
    let m = (n / workers * workers) as f64;
    let names = [
        "first candidate taken",
        "second candidate taken",
        "third candidate taken",
        "u is a square",
        "t is a square",
        "x is a square",
        "u is on the curve",
        "t is on the curve",
        "ut is on the curve",
        "x is odd",
    ];
    for i in 0..F {
        let (a, b) = (base[i] as f64 / m, real[i] as f64 / m);
        let p = (a + b) / 2.0;
        let z = (b - a) / (p * (1.0 - p) * 2.0 / m).sqrt().max(1e-9);
        ensure!(
            z.abs() < Z,
            "\"{}\" holds for {:.3} of the transmitted keys but for {:.3} of random bytes (deviation {z:.1}, {m} keys)",
            names[i],
            b,
            a
        );
        c.eval();
    }
    c.count("keys whose algebraic features were compared", m as u64);
    c.sig(&[3, c.idx]);
    c.sample(|| format!("features of {m} keys {real:?} and of random bytes {base:?}"));
    Ok(())
}

type Seen = Arc<Mutex<HashMap<Vec<u8>, &'static str>>>;
fn once(seen: &Seen, what: &'static str, v: &[u8]) -> CaseResult {
    if let Some(other) = seen.lock().unwrap().insert(v.to_vec(), what) {
        vio!("{what} {} of one connection is the {other} of another", hex(v));
    }
    Ok(())
}

/// Whole connections to one and the same remote key: nothing repeats.
fn connections(c: &mut Case, seen: &Seen) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let how = (c.idx / 2) % 4;
    // the same remote every time
    let mut cfg = PeerCfg::new(&mut Rng::new(4242 + (c.idx % 2)), role);
    cfg.garbage = Vec::new();
    let seed = c.rng.u64();
    let n = net(seed);
    {
        let mut g = n.lock().unwrap();
        g.log = false;
        g.rseg = Seg::All;
        g.starve_pending = how == 3;
    }
    let p = attach(&n, cfg, None);
    let out = match how {
        0 | 1 => {
            let kind = KINDS[how as usize];
            if let Err(e) = Conn::open(kind, MAGIC, role, None, None, &n) {
                vio!("handshake: {}", err_class(&e));
            }
            let out = n.lock().unwrap().out.clone();
            out
        }
        2 => {
            let (rec, w) = shaped::rec(seed, &n);
            let res = bip324_traffic::io::ShapedProtocol::new(
                MAGIC,
                role,
                shaped::config(true, true),
                R(n.clone()),
                w,
            );
            let out = rec.0.lock().unwrap().out.clone();
            match res {
                Ok(conn) => drop(conn),
                Err(e) => vio!("shaped handshake: {}", err_class(&e)),
            }
            out
        }
        _ => {
            let (rec, w) = shaped::rec(seed, &n);
            let rt = shaped::runtime();
            let n2 = n.clone();
            let res = rt.block_on(bip324_traffic::futures::ShapedProtocol::new(
                MAGIC,
                role,
                shaped::config(true, true),
                R(n2),
                w,
            ));
            let out = rec.0.lock().unwrap().out.clone();
            match res {
                Ok(conn) => drop(conn),
                Err(e) => vio!("shaped handshake: {}", err_class(&e)),
            }
            out
        }
    };
    let s = take_session(&p);
    once(seen, "key", &out[..64])?;
    once(seen, "key half", &out[..32])?;
    once(seen, "key half", &out[32..64])?;
    once(seen, "session id", &s.keys.session_id)?;
    once(seen, "terminator", &s.keys.term_i)?;
    once(seen, "terminator", &s.keys.term_r)?;
    once(seen, "length key", &s.keys.init_l)?;
    let w = match shaped::wire(&out, &s) {
        Ok(w) => w,
        Err(e) => vio!("handshake bytes do not parse: {e}"),
    };
    for (i, g) in w.garbage.chunks_exact(16).enumerate() {
        // no piece of garbage repeats, within a connection or across connections
        if i < 16 {
            once(seen, "piece of garbage", g)?;
        }
    }
    c.evals(7 + w.garbage.len().div_ceil(16).min(16) as u64);
    c.count("connections with a fresh key, session id and terminators", 1);
    c.sig(&[4, how, u64::from_le_bytes(out[..8].try_into().unwrap())]);
    Ok(())
}

/// Garbage of shaped connections.
fn garbage(c: &mut Case) -> CaseResult {
    let n = if c.thorough() { 20_000 } else { 2_500 };
    let workers = 8;
    let seed = c.rng.u64();
    let all: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
    let jobs: Vec<Box<dyn FnOnce() -> CaseResult + Send + '_>> = (0..workers)
        .map(|k| {
            let all = &all;
            let f: Box<dyn FnOnce() -> CaseResult + Send + '_> = Box::new(move || {
                let mut r = Rng::new(seed ^ k as u64);
                for i in 0..n / workers {
                    let role = ROLES[i % 2];
                    let cfg = PeerCfg::new(&mut r, role);
                    let nt = net(r.u64());
                    {
                        let mut g = nt.lock().unwrap();
                        g.log = false;
                        g.starve_pending = true;
                    }
                    let p = attach(&nt, cfg, None);
                    let (rec, w) = shaped::rec(r.u64(), &nt);
                    let decoys = r.coin();
                    // the blocking interface needs a check interval to shut down
                    let res = if i % 16 == 0 {
                        bip324_traffic::io::ShapedProtocol::new(
                            MAGIC,
                            role,
                            shaped::config(true, decoys),
                            R(nt.clone()),
                            w,
                        )
                        .map(|c| {
                            std::thread::sleep(Duration::from_millis(0));
                            drop(c)
                        })
                    } else {
                        let rt = shaped::runtime();
                        rt.block_on(bip324_traffic::futures::ShapedProtocol::new(
                            MAGIC,
                            role,
                            shaped::config(true, decoys),
                            R(nt.clone()),
                            w,
                        ))
                        .map(drop)
                    };
                    if let Err(e) = res {
                        vio!("shaped handshake: {}", err_class(&e));
                    }
                    let out = rec.0.lock().unwrap().out.clone();
                    let s = take_session(&p);
                    match shaped::wire(&out, &s) {
                        Ok(w) => all.lock().unwrap().push(w.garbage),
                        Err(e) => vio!("handshake bytes do not parse: {e}"),
                    }
                }
                Ok(())
            });
            f
        })
        .collect();
    crate::run::par(jobs)?;
    let all = all.into_inner().unwrap();
    let mut lens: Vec<usize> = all.iter().map(|g| g.len()).collect();
    lens.sort_unstable();
    let most = lens.chunk_by(|a, b| a == b).map(|x| x.len()).max().unwrap_or(0);
    lens.dedup();
    ensure!(
        lens.len() >= 200 && most * 20 < all.len(),
        "garbage of {} shaped connections has only {} different lengths (the most frequent one {most} times)",
        all.len(),
        lens.len()
    );
    let mut h = [0u64; 256];
    let mut first = [0u64; 256];
    let mut pairs = [0u64; 256];
    let (mut total, mut firsts, mut np) = (0u64, 0u64, 0u64);
    for g in &all {
        for b in g {
            h[*b as usize] += 1;
        }
        total += g.len() as u64;
        for b in g.iter().take(4) {
            first[*b as usize] += 1;
            firsts += 1;
        }
        for w in g.chunks_exact(2) {
            pairs[(w[0] ^ w[1]) as usize] += 1;
            np += 1;
        }
    }
    for (h, n, what) in [
        (&h, total, "bytes of garbage"),
        (&first, firsts, "first bytes of garbage"),
        (&pairs, np, "neighbouring bytes of garbage"),
    ] {
        let z = chi2(h, n);
        ensure!(z < Z, "{what} are not uniform (deviation {z:.1}, {n} samples)");
        c.eval();
    }
    c.evals(all.len() as u64);
    c.count("bytes of garbage judged", total);
    c.count("garbage lengths seen", lens.len() as u64);
    for l in &lens {
        c.sig(&[5, *l as u64]);
    }
    c.sample(|| format!("garbage of {} connections: {} different lengths, {total} bytes", all.len(), lens.len()));
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    let seen: Seen = Default::default();
    let size = t(tier, 240_000, 2_000_000) as usize;
    Suite {
        id: "C18",
        level: "exploration",
        rule: "transmitted keys of independent handshakes (distinct by their first 8 bytes), connections and garbage lengths, each judged for repetition and against what an observer could recompute; statistics over the whole population",
        assumptions: vec![
            "recomputation is attempted for libsecp256k1's encodings with zero, constant and point-derived randomness; other distinguishers only as far as the statistics see them",
            "statistical limit 7.5 standard deviations per test",
        ],
        families: vec![
            sleepy("population", t(tier, 1, 6), 6000, move |c| population(c, size)),
            fam("reencode", t(tier, 200, 4000), reencode),
            sleepy("features", t(tier, 1, 3), 6000, features),
            sleepy("connections", t(tier, 800, 20_000), 600, move |c| connections(c, &seen)),
            sleepy("garbage", t(tier, 1, 3), 6000, garbage),
        ],
        require: vec![
            "key pairs compared",
            "bit statistics of transmitted keys",
            "keys re-encoded by an observer",
            "keys whose algebraic features were compared",
            "connections with a fresh key, session id and terminators",
            "bytes of garbage judged",
        ],
    }
}
