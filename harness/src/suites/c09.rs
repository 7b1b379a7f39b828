//! C09: rejected cipher operations have no effect and leak nothing.

use super::c02::step;
use super::t;
use crate::net::net;
use crate::peer::*;
use crate::run::{fam, Case, CaseResult, Fail, Suite, Tier};
use crate::util::hash_bytes;
use crate::{ensure, vio};
use bip324::io::{Payload, ProtocolError};
use bip324::{
    CipherSession, Error, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType,
    ReceivedKey,
};

/// Any 8 consecutive plaintext bytes present in the buffer?
fn leaks(buf: &[u8], plain: &[u8]) -> Option<usize> {
    if plain.len() < 8 || buf.len() < 8 {
        return None;
    }
    // at the natural place first, then anywhere for short ones
    for i in 0..plain.len() - 7 {
        for d in [i, i + 1, i + 3, i + 4] {
            if d + 8 <= buf.len() && buf[d..d + 8] == plain[i..i + 8] {
                return Some(i);
            }
        }
    }
    if plain.len() <= 300 && buf.len() <= 700 {
        for i in 0..plain.len() - 7 {
            if buf.windows(8).any(|w| w == &plain[i..i + 8]) {
                return Some(i);
            }
        }
    }
    None
}

/// A refused operation of a random kind on the outbound half.
fn refuse_out(c: &mut Case, cs: &mut CipherSession) -> CaseResult {
    let r = &mut c.rng;
    let n = r.small_size();
    let m = r.bytes(n);
    let need = n + 20;
    ensure!(
        OutboundCipher::encryption_buffer_len(n) == need,
        "encryption_buffer_len({n}) is {}",
        OutboundCipher::encryption_buffer_len(n)
    );
    let len = match r.below(4) {
        0 => 0,
        1 => need - 1,
        2 => need - 1 - r.below(need.min(20)),
        _ => r.below(need),
    };
    let mut b = vec![0x5au8; len];
    let aad = if r.coin() { None } else { Some(r.bytes(5)) };
    let ty = if r.coin() { PacketType::Genuine } else { PacketType::Decoy };
    match cs.outbound().encrypt(&m, &mut b, ty, aad.as_deref()) {
        Err(Error::BufferTooSmall { required_bytes }) => ensure!(
            required_bytes == need,
            "encrypt of {n} bytes into {len}: required_bytes {required_bytes}, expected {need}"
        ),
        o => vio!("encrypt of {n} bytes into {len}: {o:?}"),
    }
    ensure!(b.iter().all(|x| *x == 0x5a), "encrypt of {n} bytes wrote to the {len} byte buffer it refused");
    c.count("refused_encryptions", 1);
    c.sig(&[1, n as u64, (need - len) as u64]);
    Ok(())
}

/// Refused decryptions of the packet `p` (length already consumed) before the right one.
fn refuse_in(
    c: &mut Case,
    cs: &mut CipherSession,
    body: &[u8],
    plain: &[u8],
    aad: Option<&[u8]>,
    pos: u64,
) -> CaseResult {
    let r = &mut c.rng;
    let how = r.below(10);
    let need = body.len() - 16;
    let entry = r.below(3);
    match how {
        0 | 1 => {
            // too short to be a packet
            let n = r.below(17);
            let x = if r.coin() { body[..n.min(body.len())].to_vec() } else { r.bytes(n) };
            let n = x.len();
            let big = if r.coin() { 64 } else { 0 };
            let mut b = vec![0x5a; big];
            let res = match entry {
                0 => cs.inbound().decrypt(&x, &mut b, aad).map(|_| ()),
                1 => cs.inbound().decrypt_in_place(&mut x.clone(), aad).map(|_| ()),
                _ => cs.inbound().decrypt_to_vec(&x, aad).map(|_| ()),
            };
            match res {
                Err(Error::CiphertextTooSmall) => {}
                o => vio!("decryption of {n} bytes (entry {entry}): {o:?}, expected CiphertextTooSmall"),
            }
            ensure!(b.iter().all(|x| *x == 0x5a), "refused decryption wrote to the buffer");
            c.count("too_short_inputs", 1);
            c.sig(&[2, n as u64, entry as u64]);
        }
        2 | 3 => {
            let len = match r.below(3) {
                0 => 0,
                1 => need - 1,
                _ => r.below(need),
            };
            let mut b = vec![0x5a; len];
            match cs.inbound().decrypt(body, &mut b, aad) {
                Err(Error::BufferTooSmall { required_bytes }) => ensure!(
                    required_bytes == need,
                    "decrypt of {} bytes into {len}: required_bytes {required_bytes}, expected {need}",
                    body.len()
                ),
                o => vio!("decrypt of {} bytes into {len}: {o:?}", body.len()),
            }
            ensure!(b.iter().all(|x| *x == 0x5a), "decrypt wrote to the {len} byte buffer it refused");
            c.count("too_small_buffers", 1);
            c.sig(&[3, (need - len) as u64, need as u64]);
        }
        _ => {
            // authentication failure
            let mut x = body.to_vec();
            let mut a = aad.map(|a| a.to_vec());
            let what = r.below(7);
            match what {
                0 => {
                    let n = x.len();
                    x[n - 1 - r.below(16)] ^= 1 << r.below(8)
                }
                1 => {
                    let i = r.below(need);
                    x[i] ^= 1 << r.below(8)
                }
                2 => match &mut a {
                    Some(a) if !a.is_empty() => {
                        let i = r.below(a.len());
                        a[i] ^= 1
                    }
                    _ => a = Some(vec![0]),
                },
                3 => x.push(0),
                4 if x.len() > 17 => {
                    x.remove(0);
                }
                5 => {
                    let n = x.len();
                    x[n - 16..].fill(0)
                }
                _ => {
                    let n = x.len();
                    x[n - 16] = x[n - 16].wrapping_add(1)
                }
            }
            let extra = r.below(3) * 9;
            let buf = match entry {
                0 => {
                    let n = x.len() - 16;
                    let mut b = vec![0x5a; n + extra];
                    let res = cs.inbound().decrypt(&x, &mut b, a.as_deref());
                    match res {
                        Err(Error::Decryption(_)) => {}
                        o => vio!("packet {pos}: altered packet (variant {what}): {o:?}"),
                    }
                    ensure!(
                        b[n..].iter().all(|v| *v == 0x5a),
                        "failed decrypt wrote beyond the {n} bytes it needs"
                    );
                    b
                }
                1 => {
                    let mut b = x.clone();
                    match cs.inbound().decrypt_in_place(&mut b, a.as_deref()).map(|x| x.0) {
                        Err(Error::Decryption(_)) => {}
                        o => vio!("packet {pos}: altered packet in place (variant {what}): {o:?}"),
                    }
                    b
                }
                _ => {
                    match cs.inbound().decrypt_to_vec(&x, a.as_deref()).map(|x| x.0) {
                        Err(Error::Decryption(_)) => {}
                        o => vio!("packet {pos}: altered packet to vec (variant {what}): {o:?}"),
                    }
                    Vec::new()
                }
            };
            if let Some(i) = leaks(&buf, plain) {
                vio!("packet {pos}: failed decryption (variant {what}, entry {entry}) left plaintext from byte {i} in the caller's buffer");
            }
            c.count("failed_authentications", 1);
            c.sig(&[4, what as u64, entry as u64, need as u64, (pos % 224 > 220) as u64]);
        }
    }
    Ok(())
}

/// Random mixture; each correct operation must match the reference.
fn mixture(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    let skip = *c.rng.pick(&[0usize, 0, 3, 215, 220, 222, 223]);
    for _ in 0..skip {
        for out in [true, false] {
            step(&mut c.rng, &mut cs, &mut s, 3, out, None, 0).map_err(Fail::Violation)?;
        }
    }
    for _ in 0..24 {
        let k = c.rng.below(3);
        for _ in 0..k {
            refuse_out(c, &mut cs)?;
        }
        let n = c.rng.small_size();
        if c.rng.coin() {
            let h = *c.rng.pick(&[0u8, 0x80]);
            step(&mut c.rng, &mut cs, &mut s, n, true, None, h).map_err(|e| {
                Fail::Violation(format!("after {k} refused encryptions: {e}"))
            })?;
            c.eval();
            continue;
        }
        // inbound
        let pos = s.send.pos();
        let m = c.rng.bytes(n);
        let aad = match c.rng.below(3) {
            0 => Some(c.rng.bytes(7)),
            _ => None,
        };
        let p = s.send.packet(0, &m, aad.as_deref().unwrap_or_default());
        let l = cs.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
        ensure!(l == n + 17, "packet {pos}: length {l}");
        ensure!(
            InboundCipher::decryption_buffer_len(l) == n + 1,
            "decryption_buffer_len({l}) is {}",
            InboundCipher::decryption_buffer_len(l)
        );
        let mut plain = vec![0u8];
        plain.extend_from_slice(&m);
        let k = c.rng.below(4);
        for _ in 0..k {
            refuse_in(c, &mut cs, &p[3..], &plain, aad.as_deref(), pos)?;
        }
        // now the right operation, in a buffer with sentinels
        let entry = c.rng.below(3);
        let (ty, got) = match entry {
            0 => {
                let extra = c.rng.below(20);
                let mut b = vec![0xc3; n + 1 + extra];
                let ty = match cs.inbound().decrypt(&p[3..], &mut b, aad.as_deref()) {
                    Ok(t) => t,
                    Err(e) => vio!("packet {pos} refused after {k} refused decryptions: {e}"),
                };
                ensure!(b[n + 1..].iter().all(|x| *x == 0xc3), "decrypt wrote beyond {} bytes", n + 1);
                b.truncate(n + 1);
                (ty, b)
            }
            e => match low_decrypt(cs.inbound(), &p[3..], e, aad.as_deref()) {
                Ok(x) => x,
                Err(e) => vio!("packet {pos} refused after {k} refused decryptions: {e}"),
            },
        };
        ensure!(
            ty == PacketType::Genuine && got == plain,
            "packet {pos} differs after {k} refused decryptions"
        );
        c.eval();
        c.count("correct_after_refusals", (k > 0) as u64);
    }
    c.sample(|| format!("{role:?}: 24 packets after {skip}, refusals in between"));
    Ok(())
}

/// All deficits and all short inputs for one packet size.
fn exhaustive(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let n = *c.rng.pick(&[0usize, 1, 15, 16, 17, 40, 64, 100]);
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    let m = c.rng.bytes(n);
    for len in 0..n + 20 {
        let mut b = vec![0u8; len];
        match cs.outbound().encrypt(&m, &mut b, PacketType::Genuine, None) {
            Err(Error::BufferTooSmall { required_bytes }) if required_bytes == n + 20 => {}
            o => vio!("encrypt of {n} bytes into {len}: {o:?}"),
        }
        c.local.evals += 1;
    }
    let p = s.send.packet(0, &m, &[]);
    cs.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
    for len in 0..n + 1 {
        let mut b = vec![0u8; len];
        match cs.inbound().decrypt(&p[3..], &mut b, None) {
            Err(Error::BufferTooSmall { required_bytes }) if required_bytes == n + 1 => {}
            o => vio!("decrypt of {n} bytes into {len}: {o:?}"),
        }
        c.local.evals += 1;
    }
    for len in 0..17usize {
        for entry in 0..3 {
            let x = &p[3..3 + len.min(p.len() - 3)];
            let res = match entry {
                0 => cs.inbound().decrypt(x, &mut [0u8; 64], None).map(|_| ()),
                1 => cs.inbound().decrypt_in_place(&mut x.to_vec(), None).map(|_| ()),
                _ => cs.inbound().decrypt_to_vec(x, None).map(|_| ()),
            };
            ensure!(
                res == Err(Error::CiphertextTooSmall),
                "decryption of {len} bytes (entry {entry}): {res:?}"
            );
            c.local.evals += 1;
        }
    }
    // every bit of the packet
    let mut plain = vec![0u8];
    plain.extend_from_slice(&m);
    for bit in 0..(p.len() - 3) * 8 {
        let mut x = p[3..].to_vec();
        x[bit / 8] ^= 1 << (bit % 8);
        let mut b = vec![0u8; n + 1];
        ensure!(
            matches!(cs.inbound().decrypt(&x, &mut b, None), Err(Error::Decryption(_))),
            "bit {bit} flipped: not refused"
        );
        ensure!(leaks(&b, &plain).is_none(), "bit {bit} flipped: plaintext left in the buffer");
        let mut y = x.clone();
        ensure!(
            matches!(cs.inbound().decrypt_in_place(&mut y, None), Err(Error::Decryption(_))),
            "bit {bit} flipped: not refused in place"
        );
        ensure!(leaks(&y, &plain).is_none(), "bit {bit} flipped: plaintext left in place");
        c.local.evals += 2;
    }
    match low_decrypt(cs.inbound(), &p[3..], c.rng.below(3), None) {
        Ok((_, x)) => ensure!(x == plain, "contents differ after refusals"),
        Err(e) => vio!("correct packet refused after refusals: {e}"),
    }
    let mut b = vec![0u8; n + 20];
    if cs.outbound().encrypt(&m, &mut b, PacketType::Genuine, None).is_err() {
        vio!("correct encryption refused");
    }
    ensure!(b == s.recv.packet(0, &m, &[]), "encryption after refusals differs from the reference");
    c.count("exhaustive_sizes", 1);
    c.sig(&[9, n as u64, role_init(role) as u64]);
    Ok(())
}

/// Refusals of large packets.
fn large(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    for _ in 0..4 {
        let n = match c.rng.below(5) {
            0 => *c.rng.pick(&[255usize, 256, 4095, 4096, 65_535, 65_536, 1 << 20, 3_999_997]),
            1 => c.rng.range(1000, 300_000),
            _ => c.rng.range(100, 20_000),
        };
        let pos = s.send.pos();
        let m = c.rng.bytes(n);
        let aad = match c.rng.below(3) {
            0 => {
                let k = c.rng.below(5000);
                Some(c.rng.bytes(k))
            }
            _ => None,
        };
        let p = s.send.packet(0, &m, aad.as_deref().unwrap_or_default());
        let l = cs.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
        ensure!(l == n + 17, "packet {pos}: length {l}");
        let mut plain = vec![0u8];
        plain.extend_from_slice(&m);
        for _ in 0..2 {
            refuse_in(c, &mut cs, &p[3..], &plain, aad.as_deref(), pos)?;
        }
        let entry = c.rng.below(3);
        match low_decrypt(cs.inbound(), &p[3..], entry, aad.as_deref()) {
            Ok((ty, got)) => ensure!(
                ty == PacketType::Genuine && got == plain,
                "packet {pos} of {n} bytes differs after refused decryptions"
            ),
            Err(e) => vio!("packet {pos} of {n} bytes refused after refused decryptions: {e}"),
        }
        refuse_out(c, &mut cs)?;
        step(&mut c.rng, &mut cs, &mut s, n, true, None, 0)
            .map_err(|e| Fail::Violation(format!("after refused encryptions: {e}")))?;
        c.evals(2);
        c.count("large packets after refusals", 1);
    }
    Ok(())
}

/// Every length of a range: refusals of the packet of that length, then the packet itself.
fn every_length(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let lens = crate::shaped::sweep_lengths((c.idx / 2) % crate::shaped::sweep_slices());
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    for n in &lens {
        let n = *n;
        let need = n + 20;
        let m = c.rng.content(n);
        let (ty, head) = if c.rng.coin() { (PacketType::Genuine, 0) } else { (PacketType::Decoy, 0x80) };
        let mut b = vec![0x5au8; need];
        for len in [need - 1, need - 1 - c.rng.below(20)] {
            match cs.outbound().encrypt(&m, &mut b[..len], ty, None) {
                Err(Error::BufferTooSmall { required_bytes }) => ensure!(
                    required_bytes == need,
                    "encrypt of {n} bytes into {len}: required_bytes {required_bytes}, expected {need}"
                ),
                o => vio!("encrypt of {n} bytes into {len}: {o:?}"),
            }
            ensure!(b.iter().all(|x| *x == 0x5a), "encrypt of {n} bytes wrote to the buffer it refused");
        }
        if let Err(e) = cs.outbound().encrypt(&m, &mut b, ty, None) {
            vio!("encrypt of {n} bytes into a buffer of exactly {need}: {e}");
        }
        ensure!(b == s.recv.packet(head, &m, &[]), "encryption of {n} bytes after refusals differs from the reference");
        // the other direction
        let p = s.send.packet(head, &m, &[]);
        let l = cs.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
        ensure!(l == n + 17, "length {l} of a packet of {n} bytes");
        let mut plain = vec![0u8; n + 1];
        match cs.inbound().decrypt(&p[3..], &mut plain[..n], None) {
            Err(Error::BufferTooSmall { required_bytes }) => ensure!(
                required_bytes == n + 1,
                "decrypt of {n} bytes: required_bytes {required_bytes}"
            ),
            o => vio!("decrypt of {n} bytes into {n}: {o:?}"),
        }
        ensure!(plain.iter().all(|x| *x == 0), "decrypt of {n} bytes wrote to the buffer it refused");
        let mut x = p[3..].to_vec();
        let at = if c.rng.coin() { c.rng.below(x.len()) } else { x.len() - 1 - c.rng.below(17) };
        x[at] ^= 1 << c.rng.below(8);
        let entry = c.rng.below(3);
        match low_decrypt(cs.inbound(), &x, entry, None) {
            Err(Error::Decryption(_)) => {}
            o => vio!("packet of {n} bytes altered at {at} (entry {entry}): {:?}", o.map(|x| x.0)),
        }
        match low_decrypt(cs.inbound(), &p[3..], c.rng.below(3), None) {
            Ok((t, got)) => ensure!(
                t == ty && got[0] == head && got[1..] == m[..],
                "packet of {n} bytes differs after refusals"
            ),
            Err(e) => vio!("packet of {n} bytes refused after refusals: {e}"),
        }
    }
    c.evals(lens.len() as u64 * 4);
    c.count("lengths swept", lens.len() as u64);
    c.sig(&[12, c.idx / 2 % crate::shaped::sweep_slices(), c.idx % 2]);
    Ok(())
}

/// Sizes beyond the encodable or allocatable.
fn oversize(c: &mut Case) -> CaseResult {
    let role = ROLES[(c.idx % 2) as usize];
    let big = *c.rng.pick(&[1usize << 24, (1 << 24) + 1, (1 << 24) + 300]);
    let (mut cs, mut s) = low_session(&mut c.rng, role);
    let m = vec![7u8; big];
    let mut b = vec![0u8; big + 20];
    match cs.outbound().encrypt(&m, &mut b, PacketType::Genuine, None) {
        Err(Error::PacketTooBig) => {}
        o => vio!("encrypt of {big} bytes: {o:?}"),
    }
    // decrypt_to_vec beyond the allocation limit, then the same packet otherwise
    let n = *c.rng.pick(&[4_000_014usize, 4_000_015, 5_000_000]);
    let x = vec![9u8; n];
    let p = s.send.packet(0, &x, &[]);
    let l = cs.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
    ensure!(l == n + 17, "length");
    match cs.inbound().decrypt_to_vec(&p[3..], None) {
        Err(Error::PacketTooBig) => {}
        o => vio!("decrypt_to_vec of {n} bytes: {:?}", o.map(|x| x.0)),
    }
    let mut q = vec![0u8; n + 1];
    match cs.inbound().decrypt(&p[3..], &mut q, None) {
        Ok(PacketType::Genuine) => ensure!(q[1..] == x[..], "contents differ"),
        o => vio!("decrypt of {n} bytes after the refusal: {o:?}"),
    }
    for _ in 0..3 {
        for out in [true, false] {
            let z = c.rng.small_size();
            step(&mut c.rng, &mut cs, &mut s, z, out, None, 0)
                .map_err(|e| Fail::Violation(format!("after oversize refusals: {e}")))?;
        }
    }
    // the writers
    for kind in KINDS {
        let n = net(1);
        let cfg = PeerCfg::new(&mut c.rng, role);
        let (mut conn, p) = established(kind, role, cfg, None, None, &n);
        let before = n.lock().unwrap().out.len();
        match conn.write(&Payload::genuine(m.clone())) {
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
            Err(e) => vio!("{kind:?} write of {big} bytes: {}", err_class(&e)),
            Ok(()) => vio!("{kind:?} write of {big} bytes succeeds"),
        }
        ensure!(n.lock().unwrap().out.len() == before, "{kind:?}: refused payload partly written");
        if conn.write(&Payload::genuine(b"next".to_vec())).is_err() {
            vio!("{kind:?}: write after a refused one fails");
        }
        let s = take_session(&p);
        let out = n.lock().unwrap().out.clone();
        match parse_sent(&out, &s) {
            Ok(x) => ensure!(
                x.packets.last().map(|p| p.contents.clone()) == Some(b"next".to_vec()),
                "{kind:?}: packet after a refused one differs"
            ),
            Err(e) => vio!("{kind:?} after a refused payload: {e}"),
        }
    }
    c.count("oversize_refusals", 4);
    c.sig(&[10, big as u64, n as u64]);
    c.evals(12);
    Ok(())
}

/// Size calculations of the handshake.
fn handshake(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let gl = match r.below(4) {
        0 => 0,
        1 => 4095,
        _ => r.below(200),
    };
    let g = r.bytes(gl);
    let garbage = if gl == 0 && r.coin() { None } else { Some(&g[..]) };
    let need = Handshake::<Initialized>::send_key_len(garbage);
    ensure!(need == 64 + gl, "send_key_len with {gl} bytes of garbage is {need}");
    let secret = rand_secret(r);
    let short = match r.below(3) {
        0 => need - 1,
        1 => r.below(need),
        _ => 0,
    };
    let mut b = vec![0x5au8; short];
    match initialized(MAGIC, role, secret).send_key(garbage, &mut b).map(|_| ()) {
        Err(Error::BufferTooSmall { required_bytes }) => {
            ensure!(required_bytes == need, "send_key: required_bytes {required_bytes}, expected {need}")
        }
        o => vio!("send_key into {short} of {need} bytes: {o:?}"),
    }
    ensure!(b.iter().all(|x| *x == 0x5a), "send_key wrote to the {short} byte buffer it refused");
    let extra = r.below(30);
    let mut b = vec![0xee; need + extra];
    let h = match initialized(MAGIC, role, secret).send_key(garbage, &mut b) {
        Ok(h) => h,
        Err(e) => vio!("send_key into {} bytes: {e}", need + extra),
    };
    ensure!(b[need..].iter().all(|x| *x == 0xee), "send_key wrote beyond {need} bytes");
    let cfg = PeerCfg::new(r, role);
    let decoys: Vec<Vec<u8>> = (0..r.below(4))
        .map(|_| {
            let n = r.small_size();
            r.bytes(n)
        })
        .collect();
    let refs: Vec<&[u8]> = decoys.iter().map(|d| &d[..]).collect();
    let d = if refs.is_empty() && r.coin() { None } else { Some(&refs[..]) };
    let need = Handshake::<ReceivedKey>::send_version_len(d);
    let want = 16 + 20 + decoys.iter().map(|d| d.len() + 20).sum::<usize>();
    ensure!(need == want, "send_version_len is {need}, expected {want}");
    let kb: [u8; 64] = b[..64].try_into().unwrap();
    let h2 = {
        let mut b = vec![0; 64 + gl];
        initialized(MAGIC, role, secret)
            .send_key(garbage, &mut b)
            .unwrap()
            .receive_key(cfg.enc)
            .unwrap()
    };
    let short = match r.below(3) {
        0 => need - 1,
        1 => r.below(need),
        _ => 0,
    };
    let mut vb = vec![0x5au8; short];
    match h2.send_version(&mut vb, d).map(|_| ()) {
        Err(Error::BufferTooSmall { required_bytes }) => ensure!(
            required_bytes == need,
            "send_version: required_bytes {required_bytes}, expected {need}"
        ),
        o => vio!("send_version into {short} of {need} bytes: {o:?}"),
    }
    ensure!(vb.iter().all(|x| *x == 0x5a), "send_version wrote to the {short} byte buffer it refused");
    let h = h.receive_key(cfg.enc).unwrap();
    let mut vb = vec![0xee; need + extra];
    let h = match h.send_version(&mut vb, d) {
        Ok(h) => h,
        Err(e) => vio!("send_version into {} bytes: {e}", need + extra),
    };
    ensure!(vb[need..].iter().all(|x| *x == 0xee), "send_version wrote beyond {need} bytes");
    // a version packet too short to be one; a failed one leaves no plaintext
    let mut s = session_for(&cfg, &kb);
    let hs = match h.receive_garbage(&s.my_term) {
        Ok(bip324::GarbageResult::FoundGarbage { handshake, .. }) => handshake,
        _ => vio!("terminator not found"),
    };
    if r.coin() {
        let n = r.below(17);
        let mut x = r.bytes(n);
        match hs.receive_version(&mut x).map(|_| ()) {
            Err(Error::CiphertextTooSmall) => {}
            o => vio!("receive_version of {n} bytes: {o:?}"),
        }
    } else {
        let m = r.bytes(40);
        let p = s.send.packet(0x80, &m, &[]);
        let mut x = p[3..].to_vec();
        let n = x.len();
        x[n - 1] ^= 1;
        match hs.receive_version(&mut x).map(|_| ()) {
            Err(Error::Decryption(_)) => {}
            o => vio!("altered handshake packet: {o:?}"),
        }
        ensure!(leaks(&x, &m).is_none(), "altered handshake packet leaves plaintext");
    }
    c.count("handshake_sizes", 1);
    c.sig(&[11, gl as u64, hash_bytes(&[decoys.len() as u8])]);
    c.evals(5);
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C09",
        level: "exploration",
        rule: "Refused operations (every deficit, every short input, altered packets and associated data, oversize) are interleaved with correct ones, also around packet 224; each correct operation must match the independent reference, error values must match the documented ones, buffers carry sentinels and are searched for plaintext. Distinct = different kind of refusal, size, deficit and entry point.",
        assumptions: vec!["Plaintext left behind is recognised by 8 consecutive equal bytes of random contents."],
        families: vec![
            fam("mixture", t(tier, 24_000, 192_000), mixture),
            fam("exhaustive", t(tier, 720, 5_760), exhaustive),
            fam("large", t(tier, 4_800, 38_400), large),
            fam("every_length", t(tier, 264, 2_112), every_length),
            fam("oversize", t(tier, 6, 60), oversize),
            fam("handshake", t(tier, 18_000, 144_000), handshake),
        ],
        require: vec!["refused_encryptions", "too_short_inputs", "too_small_buffers", "failed_authentications", "correct_after_refusals", "exhaustive_sizes", "oversize_refusals", "lengths swept", "large packets after refusals", "handshake_sizes"],
    }
}
