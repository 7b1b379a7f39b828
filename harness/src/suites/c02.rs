//! C02: packet streams of any length are byte exact.

use super::t;
use crate::net::net;
use crate::peer::*;
use crate::run::{fam, guarded, Case, Family, CaseResult, Suite, Tier};
use crate::util::Rng;
use crate::{ensure, vio};
use bip324::io::Payload;
use bip324::{CipherSession, Error, InboundCipher, OutboundCipher, PacketType, Role};

fn rand_aad(r: &mut Rng) -> Option<Vec<u8>> {
    match r.below(12) {
        0 => Some(Vec::new()),
        1 => Some(r.bytes(1)),
        2 => Some(r.bytes(16)),
        3 => {
            let n = r.below(300);
            Some(r.bytes(n))
        }
        4 => {
            let n = *r.pick(&[15usize, 17, 31, 32, 4095]);
            Some(r.bytes(n))
        }
        5 if r.chance(1, 30) => {
            let n = *r.pick(&[4096usize, 65_535, 65_536, 65_537, 70_000, 200_000]);
            Some(r.bytes(n))
        }
        _ => None,
    }
}

/// Exercise one packet outbound and one inbound; compare everything with the reference.
pub fn step(
    r: &mut Rng,
    cs: &mut CipherSession,
    s: &mut RefSession,
    size: usize,
    outbound: bool,
    aad: Option<&[u8]>,
    header: u8,
) -> Result<u64, String> {
    let m = r.content(size);
    let entry = r.below(3) as u64;
    let a = aad.unwrap_or_default();
    if outbound {
        let ty = ptype(header);
        let want_pos = s.recv.pos();
        let want = s.recv.packet(header_of(ty), &m, a);
        let got = match entry {
            0 => {
                let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(size)];
                cs.outbound()
                    .encrypt(&m, &mut b, ty, aad)
                    .map_err(|e| format!("encrypt of {size} bytes refused: {e}"))?;
                b
            }
            1 => {
                let extra = r.below(20);
                let fill = r.u8();
                let mut b = vec![fill; size + 20 + extra];
                cs.outbound()
                    .encrypt(&m, &mut b, ty, aad)
                    .map_err(|e| format!("encrypt of {size} bytes refused: {e}"))?;
                b.truncate(size + 20);
                b
            }
            _ => cs.outbound().encrypt_to_vec(&m, ty, aad),
        };
        if got != want {
            return Err(format!(
                "packet {want_pos} ({size} bytes, entry {entry}, aad {:?}) differs from the reference at byte {:?}",
                aad.map(|a| a.len()),
                crate::util::first_diff(&got, &want)
            ));
        }
    } else {
        let pos = s.send.pos();
        let p = s.send.packet(header, &m, a);
        let l = cs
            .inbound()
            .decrypt_packet_len(p[..3].try_into().unwrap());
        if l != size + 17 {
            return Err(format!("packet {pos}: length {l} expected {}", size + 17));
        }
        let (ty, plain) = match entry {
            0 => {
                let extra = r.below(3) * 7;
                let mut b = vec![0u8; InboundCipher::decryption_buffer_len(l) + extra];
                let ty = cs
                    .inbound()
                    .decrypt(&p[3..], &mut b, aad)
                    .map_err(|e| format!("packet {pos} ({size} bytes) decrypt: {e}"))?;
                b.truncate(size + 1);
                (ty, b)
            }
            1 => {
                let mut b = p[3..].to_vec();
                let (ty, x) = cs
                    .inbound()
                    .decrypt_in_place(&mut b, aad)
                    .map_err(|e| format!("packet {pos} ({size} bytes) decrypt_in_place: {e}"))?;
                (ty, x.to_vec())
            }
            _ if size + 1 <= LIMIT => cs
                .inbound()
                .decrypt_to_vec(&p[3..], aad)
                .map_err(|e| format!("packet {pos} ({size} bytes) decrypt_to_vec: {e}"))?,
            _ => {
                match cs.inbound().decrypt_to_vec(&p[3..], aad) {
                    Err(Error::PacketTooBig) => {}
                    o => {
                        return Err(format!(
                            "decrypt_to_vec of {size} bytes: {:?}",
                            o.map(|x| x.0)
                        ))
                    }
                }
                let mut b = vec![0u8; l - 16];
                let ty = cs
                    .inbound()
                    .decrypt(&p[3..], &mut b, aad)
                    .map_err(|e| format!("packet {pos} ({size} bytes) decrypt: {e}"))?;
                (ty, b)
            }
        };
        if ty != ptype(header) {
            return Err(format!("packet {pos}: type {ty:?} for header {header:#x}"));
        }
        if plain.len() != size + 1 || plain[0] != header || plain[1..] != m[..] {
            return Err(format!(
                "packet {pos} ({size} bytes, entry {entry}): plaintext differs from what the peer sent"
            ));
        }
    }
    Ok(entry)
}

fn header(r: &mut Rng) -> u8 {
    match r.below(8) {
        0 => 0x80,
        1 => r.u8(),
        _ => 0,
    }
}

/// Mixed stream crossing many re-key boundaries in both directions.
fn stream(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    let n = if c.thorough() { 40_000 } else { 6_000 };
    let mode = (c.idx / 2) % 4;
    for i in 0..n {
        let r = &mut c.rng;
        let out = match mode {
            0 => r.coin(),
            1 => r.chance(1, 20),
            2 => r.chance(19, 20),
            _ => (i / 97) % 2 == 0,
        };
        let size = if r.chance(1, 200) {
            *r.pick(&[4096usize, 65535, 65536, 65537, 16384, 70_000])
        } else {
            r.small_size() / if i % 3 == 0 { 1 } else { 16 }
        };
        let aad = rand_aad(r);
        let h = header(r);
        let pos = if out { s.recv.pos() } else { s.send.pos() };
        let entry = match step(r, &mut cs, &mut s, size, out, aad.as_deref(), h) {
            Ok(e) => e,
            Err(e) => vio!("{role:?}: {e}"),
        };
        c.eval();
        if pos % 224 >= 222 || pos % 224 <= 1 {
            c.count("packets_at_rekey_boundaries", 1);
        }
        c.sig(&[
            pos % 224,
            out as u64,
            entry,
            (size.min(80)) as u64,
            aad.is_some() as u64,
        ]);
        if i % 1500 == 1499 && c.rng.coin() {
            // both copies of a session continue identically
            cs = cs.clone();
        }
    }
    let (a, b) = (s.recv.pos(), s.send.pos());
    c.count("packets", n);
    c.sample(|| format!("{role:?} mode {mode}: {a} packets out, {b} packets in, all equal to the reference"));
    Ok(())
}

/// Very many tiny packets, one direction.
fn long(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let out = (c.idx / 2) % 2 == 0;
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    let n: u64 = match c.thorough() {
        _ if c.family == "very_long" => 17_500_000,
        true => 3_000_000,
        false => 150_000,
    };
    for _ in 0..n {
        let r = &mut c.rng;
        let size = if r.chance(1, 8) { r.below(40) } else { 0 };
        if let Err(e) = step(r, &mut cs, &mut s, size, out, None, 0) {
            vio!("{role:?}: {e}");
        }
    }
    c.evals(n);
    c.count("packets", n);
    c.count("long_stream_packets", n);
    c.sig(&[c.idx]);
    Ok(())
}

/// Large contents at various stream positions.
fn large(c: &mut Case) -> CaseResult {
    let sizes = [
        255usize, 256, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3_999_999, 4_000_000, 4_000_012,
        4_000_013, 4_000_014, 4_000_015, 1 << 22, (1 << 22) - 1, 1 << 23, (1 << 24) - 2, (1 << 24) - 1,
    ];
    let role = ROLES[(c.idx % 2) as usize];
    let size = sizes[((c.idx / 2) as usize) % sizes.len()];
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    let lead = *c.rng.pick(&[0usize, 1, 220, 221, 222, 223, 445, 446]);
    for out in [true, false] {
        for _ in 0..lead {
            if let Err(e) = step(&mut c.rng, &mut cs, &mut s, 0, out, None, 0) {
                vio!("{e}");
            }
        }
        for k in 0..3 {
            let sz = if k < 2 { size } else { 5 };
            let aad = rand_aad(&mut c.rng);
            if let Err(e) = step(&mut c.rng, &mut cs, &mut s, sz, out, aad.as_deref(), 0) {
                vio!("{role:?}: {e}");
            }
            c.eval();
            c.count("packets", 1);
        }
        c.sig(&[size as u64, lead as u64, out as u64]);
    }
    c.count("large_packets", 4);
    Ok(())
}

/// Contents that do not fit the length field.
fn oversize(c: &mut Case) -> CaseResult {
    let sizes = [1usize << 24, (1 << 24) + 1, (1 << 24) + 255, (1 << 24) + 65536, 1 << 25, 20_000_000];
    let size = sizes[(c.idx as usize) % sizes.len()];
    let (mut cs, mut s) = low_session(&mut c.rng, Role::Initiator);
    let m = vec![0u8; size];
    {
        let mut b = vec![0u8; size + 20];
        match cs.outbound().encrypt(&m, &mut b, PacketType::Genuine, None) {
            Ok(()) => vio!(
                "{size} contents bytes accepted although the length field cannot carry them"
            ),
            Err(_) => {}
        }
    }
    // A convenience without an error type may only refuse by panicking.
    let mut probe = cs.clone();
    if let Ok(v) = guarded(|| probe.outbound().encrypt_to_vec(&m, PacketType::Genuine, None)) {
        vio!("{size} contents bytes encrypted to {} bytes", v.len());
    }
    for k in 0..3 {
        if let Err(e) = step(&mut c.rng, &mut cs, &mut s, k, true, None, 0) {
            vio!("after a refused packet: {e}");
        }
        if let Err(e) = step(&mut c.rng, &mut cs, &mut s, k, false, None, 0) {
            vio!("after a refused packet: {e}");
        }
    }
    for kind in KINDS {
        let n = net(1);
        let cfg = PeerCfg::new(&mut c.rng, Role::Initiator);
        let (mut conn, p) = established(kind, Role::Initiator, cfg, None, None, &n);
        match conn.write(&Payload::genuine(m.clone())) {
            Ok(()) => vio!("{kind:?} write of {size} bytes reported success"),
            Err(e) if is_starved(&e) => vio!("{kind:?} write reads"),
            Err(_) => {}
        }
        // the refusal must not have cost anything
        if let Err(e) = conn.write(&Payload::genuine(b"next".to_vec())) {
            vio!("{kind:?} write after a refused one: {}", err_class(&e));
        }
        let out = n.lock().unwrap().out.clone();
        match parse_sent(&out, &take_session(&p)) {
            Ok(x) => ensure!(
                x.packets.last().map(|p| p.contents.clone()) == Some(b"next".to_vec())
                    && x.packets.len() == 2,
                "{kind:?}: stream after a refused oversize write is wrong"
            ),
            Err(e) => vio!("{kind:?}: after a refused oversize write: {e}"),
        }
        c.count("oversize_refused", 1);
    }
    c.sig(&[size as u64]);
    c.eval();
    Ok(())
}

/// Independent copies of one session agree with copies of the reference.
fn clones(c: &mut Case) -> CaseResult {
    let (mut cs, mut s) = low_session(&mut c.rng, Role::Responder);
    let lead = 200 + c.rng.below(60);
    for _ in 0..lead {
        for o in [true, false] {
            if let Err(e) = step(&mut c.rng, &mut cs, &mut s, 3, o, None, 0) {
                vio!("{e}");
            }
        }
    }
    let mut copies: Vec<(CipherSession, RefSession)> = (0..3).map(|_| (cs.clone(), s.clone())).collect();
    for _ in 0..200 {
        let k = c.rng.below(3);
        let (a, b) = &mut copies[k];
        let o = c.rng.coin();
        let n = c.rng.below(60);
        if let Err(e) = step(&mut c.rng, a, b, n, o, None, 0) {
            vio!("copy of a session: {e}");
        }
        c.eval();
    }
    // the halves continue the same streams
    let (a, mut b) = copies.pop().unwrap();
    let (mut inb, mut outb) = a.into_split();
    for k in 0..300usize {
        let m = c.rng.bytes(k % 50);
        ensure!(
            outb.encrypt_to_vec(&m, PacketType::Decoy, None) == b.recv.packet(0x80, &m, &[]),
            "split outbound half differs"
        );
        let p = b.send.packet(0, &m, &[]);
        let l = inb.decrypt_packet_len(p[..3].try_into().unwrap());
        ensure!(l == m.len() + 17, "split inbound length");
        match inb.decrypt_to_vec(&p[3..], None) {
            Ok((PacketType::Genuine, v)) => ensure!(v[1..] == m[..], "split inbound contents"),
            o => vio!("split inbound half: {o:?}"),
        }
    }
    c.count("clone_steps", 500);
    c.sig(&[lead as u64]);
    Ok(())
}

const LENGTHS: usize = 16_384;
const SLICE: usize = 128;

/// Every contents length up to `LENGTHS`, and every length of associated data a handshake can
/// need, in both directions.
fn every_length(c: &mut Case) -> CaseResult {
    let from = (c.idx as usize * SLICE) % LENGTHS;
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let (mut cs, mut s) = low_session(r, role);
    let mut k = 0;
    for n in from..from + SLICE {
        for outbound in [false, true] {
            let h = header(r);
            if let Err(e) = step(r, &mut cs, &mut s, n, outbound, None, h) {
                vio!("{role:?}: {e}");
            }
            if n < 4097 {
                let a = r.bytes(n);
                let m = r.below(40);
                if let Err(e) = step(r, &mut cs, &mut s, m, outbound, Some(&a), h) {
                    vio!("{role:?}: {e}");
                }
            }
            k += 1;
        }
    }
    c.evals(k);
    c.count("consecutive lengths", k);
    c.sig(&[5, from as u64]);
    Ok(())
}

/// The same for the readers and writers.
fn every_length_interfaces(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let from = (c.idx as usize / 2 * SLICE) % LENGTHS;
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let cfg = PeerCfg::new(r, role);
    let (mut conn, p) = established(kind, role, cfg, None, None, &n);
    let mut s = take_session(&p);
    let hs = std::mem::take(&mut n.lock().unwrap().out);
    let mut pr = crate::refimpl::RefParser::new(s.recv.clone());
    pr.feed(&hs[80..]);
    ensure!(matches!(pr.next(&[]), Some(Ok(_))), "version packet");
    s.recv = pr.dir;
    for size in from..from + SLICE {
        let m = c.rng.content(size);
        let h = header(&mut c.rng);
        let ty = ptype(h);
        let pl = if ty == PacketType::Decoy { Payload::decoy(m.clone()) } else { Payload::genuine(m.clone()) };
        if let Err(e) = conn.write(&pl) {
            vio!("{kind:?} write: {}", err_class(&e));
        }
        let want = s.recv.packet(header_of(ty), &m, &[]);
        let got = {
            let mut g = n.lock().unwrap();
            g.flushed = 0;
            std::mem::take(&mut g.out)
        };
        ensure!(got == want, "{kind:?} {role:?}: bytes of a packet with {size} bytes of contents differ");
        let w = s.send.packet(h, &m, &[]);
        n.lock().unwrap().push(&w);
        match conn.read() {
            Ok(p) => ensure!(
                p.contents() == &m[..] && p.packet_type() == ty,
                "{kind:?} {role:?}: packet with {size} bytes of contents read differs"
            ),
            Err(e) => vio!("{kind:?} read of {size} bytes: {}", err_class(&e)),
        }
        c.eval();
    }
    c.count("consecutive lengths", 2 * SLICE as u64);
    c.sig(&[6, c.idx % 2, from as u64]);
    Ok(())
}

/// High-level writers and readers over long streams.
fn interfaces(c: &mut Case) -> CaseResult {
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let n = net(c.rng.u64());
    n.lock().unwrap().log = false;
    let cfg = PeerCfg::new(&mut c.rng, role);
    let (mut conn, p) = established(kind, role, cfg, None, None, &n);
    let mut s = take_session(&p);
    // swallow handshake output
    let hs = {
        let mut g = n.lock().unwrap();
        std::mem::take(&mut g.out)
    };
    n.lock().unwrap().flushed = 0;
    let mut pr = crate::refimpl::RefParser::new(s.recv.clone());
    pr.feed(&hs[80..]);
    ensure!(matches!(pr.next(&[]), Some(Ok(_))), "version packet");
    s.recv = pr.dir;
    let steps = if c.thorough() { 12_000 } else { 1500 };
    for i in 0..steps {
        let r = &mut c.rng;
        let size = if i % 500 == 499 { 70_000 } else { r.small_size() / 4 };
        let m = r.content(size);
        let h = header(r);
        if r.coin() {
            let ty = ptype(h);
            let pl = if ty == PacketType::Decoy { Payload::decoy(m.clone()) } else { Payload::genuine(m.clone()) };
            if let Err(e) = conn.write(&pl) {
                vio!("{kind:?} write: {}", err_class(&e));
            }
            let want = s.recv.packet(header_of(ty), &m, &[]);
            let mut g = n.lock().unwrap();
            let got = std::mem::take(&mut g.out);
            g.flushed = 0;
            ensure!(got == want, "{kind:?} {role:?}: bytes of packet {} differ", s.recv.pos() - 1);
        } else {
            let w = s.send.packet(h, &m, &[]);
            n.lock().unwrap().push(&w);
            match conn.read() {
                Ok(p) => ensure!(
                    p.contents() == &m[..] && p.packet_type() == ptype(h),
                    "{kind:?} {role:?}: packet {} read differs",
                    s.send.pos() - 1
                ),
                Err(e) => vio!("{kind:?} read of packet {}: {}", s.send.pos() - 1, err_class(&e)),
            }
        }
        c.eval();
    }
    c.sig(&[c.idx, s.recv.pos()]);
    c.count("interface_packets", steps);
    Ok(())
}

/// Positions that cannot be reached by running: needs the hook.
#[cfg(bip324_verif)]
fn seek(c: &mut Case) -> CaseResult {
    let base: [u64; 14] = [
        224 * 255,
        224 * 256,
        224 * 65536,
        u32::MAX as u64 - 300,
        u32::MAX as u64,
        1 << 32,
        (u32::MAX as u64) * 3 + 1,
        ((1u64 << 32) / 3) + 1,
        224 * u32::MAX as u64,
        224 * (1u64 << 32),
        1 << 40,
        1 << 48,
        u64::MAX / 2,
        224 * ((1u64 << 53) + 1),
    ];
    let role = ROLES[(c.idx % 2) as usize];
    let k = (c.idx / 2) as usize;
    let b = match k % 4 {
        0 | 1 => base[k / 4 % base.len()],
        // powers of two and ten, or anywhere
        2 if k / 4 % 2 == 0 => 1u64 << (9 + k / 8 % 54),
        2 => 10u64.pow((3 + k / 8 % 16) as u32),
        _ => c.rng.u64() >> c.rng.range(1, 55),
    };
    let pos = b.saturating_sub(c.rng.below(450) as u64);
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    cs.inbound().verif_seek(pos);
    cs.outbound().verif_seek(pos);
    s.send.seek(pos);
    s.recv.seek(pos);
    for _ in 0..700 {
        let r = &mut c.rng;
        let out = r.coin();
        let n = r.below(20);
        if let Err(e) = step(r, &mut cs, &mut s, n, out, None, 0) {
            vio!("{role:?} starting at packet {pos}: {e}");
        }
        c.eval();
    }
    c.sig(&[pos]);
    c.count("packets_beyond_reachable_positions", 700);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    #[allow(unused_mut)]
    let mut families = vec![
        fam("stream", t(tier, 128, 1024), stream),
        fam("long", t(tier, 16, 128), long),
        fam("large", t(tier, 36, 144), large),
        fam("oversize", t(tier, 6, 12), oversize),
        fam("clones", t(tier, 144, 1152), clones),
        fam("every_length", t(tier, 4, 64) * (LENGTHS / SLICE) as u64, every_length),
        fam("every_length_interfaces", t(tier, 4, 64) * (LENGTHS / SLICE) as u64, every_length_interfaces),
        fam("interfaces", t(tier, 128, 1024), interfaces),
    ];
    if tier == Tier::Thorough {
        // beyond 2^24 packets without the hook
        families.push(Family { cpu_limit: 2500, ..fam("very_long", 4, long) });
    }
    #[cfg(bip324_verif)]
    families.push(fam("seek", t(tier, 1792, 17920), seek));
    Suite {
        id: "C02",
        level: "exploration",
        rule: "A case is a stream of packets through a real session; each packet (random entry point, direction, size, header, associated data) is one evaluation, compared byte for byte with the independent reference. Distinct = different (position within the re-key epoch, direction, entry point, size, AAD presence) or starting position/size.",
        assumptions: vec![
            "Positions beyond what can be run are reached by the guarded seek hook, which sets the position without applying the skipped re-keyings (the reference does the same).",
        ],
        families,
        require: vec!["packets", "consecutive lengths", "packets_at_rekey_boundaries", "large_packets", "oversize_refused", "interface_packets"],
    }
}
