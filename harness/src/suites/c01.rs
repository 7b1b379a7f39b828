//! C01: key agreement and session secrets against the reference.

use super::t;
use crate::net::net;
use crate::peer::*;
use crate::refimpl::{self, fe_bytes, gx, mul_x, xswiftec, RefParser};
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::{hash_bytes, hex, Rng};
use crate::{ensure, vio};
use bip324::{
    Error, GarbageResult, Handshake, Initialized, OutboundCipher, PacketType, ReceivedKey, Role,
    SessionKeyMaterial, VersionResult,
};
use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};

fn rand_magic(r: &mut Rng) -> [u8; 4] {
    match r.below(8) {
        0 | 1 | 2 => MAGIC,
        3 => [0x0b, 0x11, 0x09, 0x07],
        4 => [0xfa, 0xbf, 0xb5, 0xda],
        5 => [0; 4],
        6 => [0xff; 4],
        _ => r.arr(),
    }
}

/// A remote encoding from one of the structural classes, and the class number.
fn rand_encoding(r: &mut Rng, magic: &[u8; 4], own: &[u8; 64]) -> (u64, [u8; 64]) {
    let mut e: [u8; 64] = r.arr();
    let class = r.below(16);
    let p_bytes: [u8; 32] = {
        let mut p = [0xffu8; 32];
        p[27] = 0xfe;
        p[28..].copy_from_slice(&[0xff, 0xff, 0xfc, 0x2f]);
        p
    };
    match class {
        0 => e[..32].fill(0),  // u = 0
        1 => e[32..].fill(0),  // t = 0
        2 => e.fill(0),
        3 => e.fill(0xff),
        4 => e[..32].copy_from_slice(&p_bytes), // u = p, i.e. 0
        5 => e[32..].copy_from_slice(&p_bytes),
        6 => {
            // u in [p, 2^256)
            e[..32].copy_from_slice(&[0xff; 32]);
            e[27] = 0xff;
            e[31] = r.u8();
        }
        7 => {
            e[32..].copy_from_slice(&[0xff; 32]);
            e[63] = r.u8();
        }
        8 => {
            // u^3 + t^2 + 7 = 0
            for _ in 0..64 {
                let u: [u8; 32] = r.arr();
                let uf = refimpl::fe_from(&u);
                let v = refimpl::fe_neg(&refimpl::curve_rhs(&uf));
                if let Some(tt) = refimpl::sqrt(&v) {
                    let tt = if r.coin() { tt } else { refimpl::fe_neg(&tt) };
                    e[..32].copy_from_slice(&fe_bytes(&uf));
                    e[32..].copy_from_slice(&fe_bytes(&tt));
                    break;
                }
            }
        }
        9 => e = *own, // reflection
        10 => {
            // nearly the network magic
            e[..4].copy_from_slice(magic);
            let i = r.below(4);
            e[i] ^= 1 << r.below(8);
        }
        11 => {
            e[..4].copy_from_slice(magic);
            e[..4].reverse();
        }
        12 => e[..31].fill(0),
        13 => e[..3].copy_from_slice(&magic[..3]),
        _ => {}
    }
    (class as u64, e)
}

/// One complete low-level handshake with forged peer material: the local secret is known, so the
/// shared secret with *any* 64 byte encoding can be computed by the reference.
fn forged(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = if r.coin() { Role::Initiator } else { Role::Responder };
    let is_init = role_init(role);
    let magic = rand_magic(r);
    let secret = rand_secret(r);
    let g = match r.below(4) {
        0 => None,
        1 => Some(Vec::new()),
        2 => {
            let n = r.below(4096);
            Some(r.content(n))
        }
        _ => {
            let n = r.below(64);
            Some(r.bytes(n))
        }
    };
    let h = initialized(magic, role, secret);
    ensure!(*h.magic() == magic && h.role() == role, "accessors differ");
    let mut kb = vec![0u8; Handshake::<Initialized>::send_key_len(g.as_deref())];
    let h = match h.send_key(g.as_deref(), &mut kb) {
        Ok(h) => h,
        Err(e) => vio!("send_key: {e}"),
    };
    let own: [u8; 64] = kb[..64].try_into().unwrap();
    let (own_branch, x) = xswiftec(&own);
    let want_x = mul_x(&secret, &gx());
    ensure!(
        fe_bytes(&x) == want_x,
        "public key {} does not decode to the point of secret {}",
        hex(&own),
        hex(&secret)
    );
    let (class, enc) = rand_encoding(r, &magic, &own);
    if enc[..4] == magic {
        match h.receive_key(enc) {
            Err(Error::V1Protocol) => {}
            _ => vio!("key with V1 prefix not rejected"),
        }
        c.eval();
        return Ok(());
    }
    let h = match h.receive_key(enc) {
        Ok(h) => h,
        Err(e) => vio!("receive_key({}) fails: {e}", hex(&enc)),
    };
    let (branch, _) = xswiftec(&enc);
    let (i, rr) = if is_init { (own, enc) } else { (enc, own) };
    let keys = refimpl::derive(&secret, &i, &rr, is_init, &magic);
    // local view; peer view is the mirror image
    let peer = session_from_keys(keys.clone(), !is_init);
    let mut peer = peer;
    // the key derivation entry point directly
    let mat = SessionKeyMaterial::from_ecdh(
        ElligatorSwift::from_array(i),
        ElligatorSwift::from_array(rr),
        secp256k1::SecretKey::from_slice(&secret).unwrap(),
        if is_init { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B },
        magic,
    );
    match mat {
        Ok(m) => ensure!(
            m.session_id == keys.session_id,
            "from_ecdh session id {} expected {} (role {role:?}, remote {})",
            hex(&m.session_id),
            hex(&keys.session_id),
            hex(&enc)
        ),
        Err(e) => vio!("from_ecdh fails: {e}"),
    }
    let decoys: Vec<Vec<u8>> = (0..r.below(4))
        .map(|_| {
            let n = r.small_size();
            r.content(n)
        })
        .collect();
    let refs: Vec<&[u8]> = decoys.iter().map(|d| d.as_slice()).collect();
    let dopt = if decoys.is_empty() && r.coin() { None } else { Some(&refs[..]) };
    let mut vb = vec![0u8; Handshake::<ReceivedKey>::send_version_len(dopt)];
    let h = match h.send_version(&mut vb, dopt) {
        Ok(h) => h,
        Err(e) => vio!("send_version: {e}"),
    };
    let mut want = peer.their_term.to_vec();
    let gb = g.clone().unwrap_or_default();
    for (k, d) in decoys.iter().enumerate() {
        want.extend(peer.recv.packet(0x80, d, if k == 0 { &gb } else { &[] }));
    }
    want.extend(peer.recv.packet(0, b"", if decoys.is_empty() { &gb } else { &[] }));
    ensure!(
        vb == want,
        "terminator and version bytes differ from the reference at {:?} (role {role:?}, remote {})",
        crate::util::first_diff(&vb, &want),
        hex(&enc)
    );
    // the peer's answer
    let n = r.below(40);
    let pg = r.bytes(n);
    let mut pt = pg.clone();
    pt.extend_from_slice(&peer.my_term);
    let vc = {
        let n = r.below(3);
        r.bytes(n)
    };
    pt.extend(peer.send.packet(0, &vc, &pg));
    let mut cipher = match h.receive_garbage(&pt) {
        Ok(GarbageResult::FoundGarbage {
            mut handshake,
            consumed_bytes,
        }) => {
            ensure!(consumed_bytes == pg.len() + 16, "consumed {consumed_bytes}");
            let rest = &pt[consumed_bytes..];
            let n = handshake.decrypt_packet_len(rest[..3].try_into().unwrap()).unwrap();
            ensure!(n == rest.len() - 3, "version length {n}");
            let mut b = rest[3..].to_vec();
            match handshake.receive_version(&mut b) {
                Ok(VersionResult::Complete { cipher }) => cipher,
                Ok(_) => vio!("version packet taken for a decoy"),
                Err(e) => vio!("reference version packet refused: {e} (remote {})", hex(&enc)),
            }
        }
        Ok(_) => vio!("reference terminator not recognised (remote {})", hex(&enc)),
        Err(e) => vio!("receive_garbage: {e}"),
    };
    ensure!(
        cipher.id() == &keys.session_id,
        "session id {} expected {}",
        hex(cipher.id()),
        hex(&keys.session_id)
    );
    for _ in 0..3 {
        let n = r.below(40);
        let m = r.bytes(n);
        let mut out = vec![0u8; OutboundCipher::encryption_buffer_len(n)];
        cipher.outbound().encrypt(&m, &mut out, PacketType::Genuine, None).unwrap();
        ensure!(out == peer.recv.packet(0, &m, &[]), "session packet differs");
        let p = peer.send.packet(0x80, &m, &[]);
        let l = cipher.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
        ensure!(l == n + 17, "length");
        let mut pb = vec![0u8; n + 1];
        match cipher.inbound().decrypt(&p[3..], &mut pb, None) {
            Ok(PacketType::Decoy) => ensure!(pb[1..] == m[..], "contents differ"),
            o => vio!("peer packet: {o:?}"),
        }
    }
    c.sig(&[class, branch as u64, own_branch as u64, is_init as u64, hash_bytes(&enc)]);
    c.count("forged_encodings", 1);
    if class < 14 {
        c.count("structured_encodings", 1);
    }
    c.eval();
    c.sample(|| {
        format!(
            "role={role:?} magic={} class={class} branch={branch} remote={} session_id={}",
            hex(&magic),
            hex(&enc),
            hex(&keys.session_id)
        )
    });
    Ok(())
}

/// Honest peer with its own secret through the high-level interfaces.
fn interfaces(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let kind = KINDS[(c.idx % 2) as usize];
    let role = ROLES[((c.idx / 2) % 2) as usize];
    let mut cfg = PeerCfg::varied(r, role);
    cfg.magic = rand_magic(r);
    if cfg.enc[..4] == cfg.magic {
        return Ok(());
    }
    let n = net(r.u64());
    let g = match r.below(3) {
        0 => None,
        _ => {
            let k = r.below(100);
            Some(r.bytes(k))
        }
    };
    let d: OptDecoys = match r.below(3) {
        0 => None,
        _ => Some((0..r.below(3)).map(|_| r.bytes(9)).collect()),
    };
    let (mut conn, p) = established(kind, role, cfg, g.clone(), d.clone(), &n);
    let msg = r.bytes(33);
    if let Err(e) = conn.write(&bip324::io::Payload::genuine(msg.clone())) {
        vio!("write: {}", err_class(&e));
    }
    let mut s = take_session(&p);
    let out = n.lock().unwrap().out.clone();
    let sent = match parse_sent(&out, &s) {
        Ok(x) => x,
        Err(e) => vio!("{kind:?} {role:?}: {e}"),
    };
    ensure!(sent.leftover == 0, "trailing bytes");
    ensure!(sent.garbage == g.unwrap_or_default(), "garbage differs");
    let want: Vec<Vec<u8>> = d
        .unwrap_or_default()
        .into_iter()
        .chain([Vec::new(), msg.clone()])
        .collect();
    let got: Vec<Vec<u8>> = sent.packets.iter().map(|p| p.contents.clone()).collect();
    ensure!(want == got, "packets sent differ from those given");
    let pk = s.send.packet(0, &msg, &[]);
    n.lock().unwrap().push(&pk);
    match conn.read() {
        Ok(p) => ensure!(p.contents() == &msg[..], "contents differ"),
        Err(e) => vio!("read: {}", err_class(&e)),
    }
    c.sig(&[hash_bytes(&sent.key)]);
    c.count("interface_handshakes", 1);
    c.eval();
    Ok(())
}

/// Two instances of the code under test: agreement on one network, never across networks.
fn pairs(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let m1 = rand_magic(r);
    let same = r.coin();
    let mut m2 = m1;
    if !same {
        match r.below(2) {
            0 => m2[r.below(4)] ^= 1 << r.below(8),
            _ => {
                let mut x = r.arr();
                while x == m1 {
                    x = r.arr();
                }
                m2 = x
            }
        }
    }
    let (s1, s2) = (rand_secret(r), rand_secret(r));
    let mut k1 = [0u8; 64];
    let mut k2 = [0u8; 64];
    let a = initialized(m1, Role::Initiator, s1).send_key(None, &mut k1).unwrap();
    let b = initialized(m2, Role::Responder, s2).send_key(None, &mut k2).unwrap();
    if k1[..4] == m2 || k2[..4] == m1 {
        return Ok(());
    }
    let (a, b) = match (a.receive_key(k2), b.receive_key(k1)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => vio!("receive_key fails"),
    };
    let vl = Handshake::<ReceivedKey>::send_version_len(None);
    let (mut va, mut vb) = (vec![0u8; vl], vec![0u8; vl]);
    let a = a.send_version(&mut va, None).unwrap();
    let b = b.send_version(&mut vb, None).unwrap();
    let mut p = RefParser::new(
        refimpl::derive(&s2, &k1, &k2, false, &m2).dirs(true).0,
    );
    p.feed(&va[16..]);
    let agrees = matches!(p.next(&[]), Some(Ok(_)));
    let found = |x: Result<GarbageResult, Error>| matches!(x, Ok(GarbageResult::FoundGarbage { .. }));
    let (fa, fb) = (found(a.receive_garbage(&vb)), found(b.receive_garbage(&va)));
    ensure!(
        fa == same && fb == same && agrees == same,
        "peers on magic {} and {}: terminators recognised {fa}/{fb}, keys agree {agrees}",
        hex(&m1),
        hex(&m2)
    );
    c.sig(&[same as u64, hash_bytes(&m1), hash_bytes(&m2)]);
    c.count(if same { "pairs_same_network" } else { "pairs_cross_network" }, 1);
    c.eval();
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C01",
        level: "exploration",
        rule: "A case is one complete handshake of the real code with a random or boundary secret, role and magic against a remote encoding from 16 structural classes (zero, non-canonical, doubled-t, reflected, near-magic, random); every derived byte is compared with the independent reference. Distinct = different (class, decoding branch, role, encoding).",
        assumptions: vec![
            "The reference implementation in harness/src/refimpl.rs is self-tested on every run against RFC 5869/8439 and BIP-324 vectors and against libsecp256k1.",
        ],
        families: vec![
            fam("forged", t(tier, 80_000, 640_000), forged),
            fam("interfaces", t(tier, 16_000, 128_000), interfaces),
            fam("pairs", t(tier, 20_000, 160_000), pairs),
        ],
        require: vec!["forged_encodings", "structured_encodings", "interface_handshakes", "pairs_same_network", "pairs_cross_network"],
    }
}
