//! C11: only the top header bit marks decoys; the first non-decoy handshake packet completes it.

use super::t;
use crate::net::{net, Seg};
use crate::peer::*;
use crate::refimpl::RefParser;
use crate::run::{fam, Case, CaseResult, Suite, Tier};
use crate::util::{hash_bytes, Rng};
use crate::{ensure, vio};
use bip324::{PacketType, Role};

fn name(e: usize) -> &'static str {
    ["decrypt", "decrypt_in_place", "decrypt_to_vec", "sync reader", "async reader"][e]
}

/// Every header value over one session, in random order, through one entry point.
fn session(c: &mut Case) -> CaseResult {
    let entry = (c.idx % 5) as usize;
    let role = ROLES[(c.idx / 5 % 2) as usize];
    let r = &mut c.rng;
    let mut headers: Vec<u8> = (0..=255).collect();
    for i in (1..256).rev() {
        headers.swap(i, r.below(i + 1));
    }
    let pkts: Vec<Pkt> = headers
        .iter()
        .map(|h| {
            let n = match r.below(4) {
                0 => 0,
                1 => 1,
                _ => r.below(70),
            };
            // contents starting with bytes that look like headers
            let mut x = r.content(n);
            if let Some(f) = x.first_mut() {
                if r.coin() {
                    *f = *r.pick(&[0u8, 0x80, 0x7f, 0xff]);
                }
            }
            pkt(*h, &x)
        })
        .collect();
    let judge = |p: &Pkt, ty: PacketType, contents: &[u8]| -> CaseResult {
        let want = if p.header & 0x80 != 0 { PacketType::Decoy } else { PacketType::Genuine };
        ensure!(
            ty == want,
            "{}: header {:#04x} reported as {ty:?}",
            name(entry),
            p.header
        );
        ensure!(
            contents == p.contents,
            "{}: contents of the packet with header {:#04x} differ",
            name(entry),
            p.header
        );
        Ok(())
    };
    if entry < 3 {
        let (cipher, mut s) = low_session(r, role);
        let (mut inb, _out) = cipher.into_split();
        for p in &pkts {
            let aad = if r.chance(1, 4) { Some(r.bytes(5)) } else { None };
            let b = s.send.packet(p.header, &p.contents, aad.as_deref().unwrap_or(&[]));
            let n = inb.decrypt_packet_len(b[..3].try_into().unwrap());
            ensure!(n == b.len() - 3, "packet length {n}");
            match low_decrypt(&mut inb, &b[3..], entry, aad.as_deref()) {
                Ok((ty, v)) => {
                    ensure!(
                        !v.is_empty() && v[0] == p.header,
                        "{}: header byte {:#04x} not preserved",
                        name(entry),
                        p.header
                    );
                    judge(p, ty, &v[1..])?
                }
                Err(e) => vio!("{}: header {:#04x} refused: {e:?}", name(entry), p.header),
            }
        }
    } else {
        let kind = KINDS[entry - 3];
        let mut cfg = PeerCfg::new(r, role);
        cfg.session = pkts.clone();
        let n = net(r.u64());
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.rseg = Seg::Random(1 + r.below(400));
        }
        let (mut conn, _p) = established(kind, role, cfg, None, None, &n);
        for p in &pkts {
            match conn.read() {
                Ok(x) => judge(p, x.packet_type(), x.contents())?,
                Err(e) => vio!("{}: header {:#04x} refused: {}", name(entry), p.header, err_class(&e)),
            }
        }
    }
    for p in &pkts {
        let s = [entry as u64, p.header as u64, p.contents.len() as u64];
        c.sig(&s);
    }
    c.evals(256);
    c.count("session packets with every header", 256);
    c.sample(|| format!("{}: all 256 headers in random order", name(entry)));
    Ok(())
}

/// One header value in the handshake: decoy or version, then the rest must follow suit.
fn handshake(c: &mut Case) -> CaseResult {
    let header = (c.idx % 256) as u8;
    let iface = (c.idx / 256 % 3) as usize;
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let mut cfg = PeerCfg::new(r, role);
    let n = r.below(50);
    cfg.garbage = r.bytes(n);
    // decoys before with arbitrary low bits
    let before = match r.below(8) {
        0 => r.below(40),
        _ => r.below(4),
    };
    let mut hs: Vec<Pkt> = Vec::new();
    for _ in 0..before {
        let n = r.small_size();
        hs.push(pkt(0x80 | r.u8(), &r.content(n)));
    }
    let n = *r.pick(&[0usize, 0, 1, 7, 100, 1000]);
    hs.push(pkt(header, &r.content(n)));
    if header & 0x80 != 0 {
        let k = *r.pick(&[0usize, 1, 50]);
        let low = r.u8() & 0x7f;
        hs.push(pkt(low, &r.bytes(k)));
    }
    cfg.handshake = hs.clone();
    // the first session packet tells whether the completion point is right
    let marker = r.bytes(20);
    cfg.session = vec![pkt(0, &marker)];
    let (done, got): (String, Option<Vec<u8>>) = if iface == 0 {
        let secret = rand_secret(r);
        let mut out = Vec::new();
        let mut stream: Option<(Vec<u8>, Layout)> = None;
        let o = low_handshake(r, MAGIC, role, secret, None, None, &mut out, |sent| {
            if stream.is_none() {
                let mut s = session_for(&cfg, sent[..64].try_into().unwrap());
                stream = Some(transcript(&cfg, &mut s));
            }
            stream.as_ref().unwrap().0.clone()
        });
        let (v, l) = stream.unwrap();
        let class = o.class();
        let got = match o {
            LowOut::Done { mut cipher, consumed, decoys } => {
                ensure!(
                    consumed == *l.hs.last().unwrap(),
                    "low level: completed after {decoys} decoys, {consumed} bytes, expected {}",
                    l.hs.last().unwrap()
                );
                ensure!(decoys == hs.len() - 1, "low level: {decoys} decoys reported of {}", hs.len() - 1);
                let k = cipher
                    .inbound()
                    .decrypt_packet_len(v[consumed..consumed + 3].try_into().unwrap());
                let mut b = v[consumed + 3..].to_vec();
                ensure!(k == b.len(), "low level: length after the handshake is {k}");
                match cipher.inbound().decrypt_in_place(&mut b, None) {
                    Ok((_, x)) => Some(x[1..].to_vec()),
                    Err(_) => None,
                }
            }
            _ => None,
        };
        (class, got)
    } else {
        let kind = KINDS[iface - 1];
        let n = net(r.u64());
        {
            let mut g = n.lock().unwrap();
            g.log = false;
            g.rseg = match r.below(3) {
                0 => Seg::All,
                1 => Seg::Fixed(1),
                _ => Seg::Random(300),
            };
        }
        let _p = attach(&n, cfg.clone(), None);
        match Conn::open(kind, MAGIC, role, None, None, &n) {
            Ok(mut conn) => (
                "Done".into(),
                conn.read().ok().map(|p| p.contents().to_vec()),
            ),
            Err(e) => (err_class(&e), None),
        }
    };
    let iname = ["low level", "sync", "async"][iface];
    ensure!(
        done == "Done",
        "{iname} handshake with headers {:?} ended with {done}",
        hs.iter().map(|p| p.header).collect::<Vec<_>>()
    );
    ensure!(
        got.as_deref() == Some(&marker[..]),
        "{iname} handshake with headers {:?} did not complete at the first non-decoy packet",
        hs.iter().map(|p| p.header).collect::<Vec<_>>()
    );
    c.eval();
    c.sig(&[1, header as u64, iface as u64, before as u64, n as u64]);
    c.count("handshake headers", 1);
    c.count("handshake decoys skipped", hs.len() as u64 - 1);
    c.sample(|| format!("{iname}: {before} decoys, then header {header:#04x} with {n} bytes"));
    Ok(())
}

/// Very many or very large handshake decoys.
fn many(c: &mut Case) -> CaseResult {
    let iface = (c.idx % 3) as usize;
    let r = &mut c.rng;
    let role = ROLES[r.below(2)];
    let mut cfg = PeerCfg::new(r, role);
    let count = match c.idx / 3 % 3 {
        // the first ones: beyond the range of 16 bits, and together beyond the limit of one packet
        _ if c.idx < 3 => r.range(65_600, 70_000),
        _ if c.idx < 6 => r.range(2, 4),
        0 => r.range(230, 700),
        1 => r.range(1, 3),
        _ => r.range(40, 230),
    };
    let huge = (3..6).contains(&c.idx);
    let mut hs: Vec<Pkt> = Vec::new();
    for _ in 0..count {
        let n = match count {
            _ if huge => r.range(3_000_000, 4_000_000 - 10),
            0..=3 => r.range(100_000, 1_000_000),
            _ => r.below(30),
        };
        hs.push(pkt(0x80, &r.bytes(n)));
    }
    let n = r.below(2000);
    hs.push(pkt(0, &r.bytes(n)));
    cfg.handshake = hs;
    let n = *r.pick(&[0, 1, 3, 20, 500, 2000, 4095]);
    cfg.garbage = r.content(n);
    let marker = r.bytes(20);
    cfg.session = vec![pkt(0x80, &marker)];
    if iface == 0 {
        let secret = rand_secret(r);
        let mut out = Vec::new();
        let mut stream: Option<Vec<u8>> = None;
        let o = low_handshake(r, MAGIC, role, secret, None, None, &mut out, |sent| {
            if stream.is_none() {
                let mut s = session_for(&cfg, sent[..64].try_into().unwrap());
                stream = Some(transcript(&cfg, &mut s).0);
            }
            stream.clone().unwrap()
        });
        match o {
            LowOut::Done { decoys, .. } => ensure!(decoys == count, "{decoys} decoys of {count}"),
            o => vio!("low level handshake with {count} decoys ended with {}", o.class()),
        }
    } else {
        let n = net(r.u64());
        n.lock().unwrap().log = false;
        let _p = attach(&n, cfg, None);
        match Conn::open(KINDS[iface - 1], MAGIC, role, None, None, &n) {
            Ok(mut conn) => match conn.read() {
                Ok(p) => ensure!(
                    p.contents() == marker && p.packet_type() == PacketType::Decoy,
                    "wrong packet after {count} handshake decoys"
                ),
                Err(e) => vio!("read after {count} handshake decoys: {}", err_class(&e)),
            },
            Err(e) => vio!("handshake with {count} decoys: {}", err_class(&e)),
        }
    }
    c.eval();
    c.sig(&[2, iface as u64, count as u64]);
    c.count("handshake decoys skipped", count as u64);
    Ok(())
}

/// Headers the code under test emits, seen by the reference.
fn emitted(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let kind = KINDS[(c.idx / 2 % 2) as usize];
    let nd = r.below(5);
    let decoys: Vec<Vec<u8>> = (0..nd)
        .map(|_| {
            let n = r.small_size();
            r.content(n)
        })
        .collect();
    let mut cfg = PeerCfg::new(r, role);
    let mut sends = Vec::new();
    for _ in 0..r.range(1, 40) {
        let n = r.small_size();
        let h = *r.pick(&[0u8, 0x80]);
        sends.push(pkt(h, &r.content(n)));
    }
    // packets received from the peer may be sent on: the reserved bits must not travel along
    for _ in 0..6 {
        let h = r.u8();
        cfg.session.push(pkt(h, &r.bytes(9)));
    }
    let relayed = cfg.session.clone();
    let n = net(r.u64());
    n.lock().unwrap().log = false;
    let (mut conn, p) = established(kind, role, cfg, None, Some(decoys.clone()), &n);
    let mut want: Vec<(u8, Vec<u8>)> = decoys.iter().map(|d| (0x80, d.clone())).collect();
    want.push((0, Vec::new()));
    for s in &sends {
        if let Err(e) = conn.write(&payload(s)) {
            vio!("write: {}", err_class(&e));
        }
        want.push((s.header, s.contents.clone()));
    }
    for s in &relayed {
        match conn.read() {
            Ok(p) => {
                if let Err(e) = conn.write(&p) {
                    vio!("write: {}", err_class(&e));
                }
                want.push((s.header & 0x80, s.contents.clone()));
            }
            Err(e) => vio!("read: {}", err_class(&e)),
        }
    }
    let s = take_session(&p);
    let out = n.lock().unwrap().out.clone();
    let sent = match parse_sent(&out, &s) {
        Ok(s) => s,
        Err(e) => vio!("sent bytes do not parse: {e}"),
    };
    ensure!(sent.packets.len() == want.len(), "{} packets sent, expected {}", sent.packets.len(), want.len());
    for (i, (k, w)) in sent.packets.iter().zip(&want).enumerate() {
        ensure!(
            k.header == w.0,
            "packet {i} sent with header {:#04x}, expected {:#04x}",
            k.header,
            w.0
        );
        // The version packet's contents are the sender's choice (empty today): ignored by BIP-324.
        ensure!(i == nd || k.contents == w.1, "packet {i} sent with other contents");
    }
    let sig = [3, nd as u64, want.len() as u64, hash_bytes(&out[..64])];
    c.evals(want.len() as u64);
    c.sig(&sig);
    c.count("headers emitted", want.len() as u64);
    Ok(())
}

/// Low-level encryption entry points emit only the two headers.
fn emitted_low(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let role = ROLES[(c.idx % 2) as usize];
    let (cipher, s) = low_session(r, role);
    let (_i, mut out) = cipher.into_split();
    let mut p = RefParser::new(s.recv.clone());
    for i in 0..60 {
        let ty = if r.coin() { PacketType::Decoy } else { PacketType::Genuine };
        let n = r.small_size();
        let x = r.content(n);
        let b = if i % 2 == 0 {
            let mut b = vec![0u8; bip324::OutboundCipher::encryption_buffer_len(x.len())];
            match out.encrypt(&x, &mut b, ty, None) {
                Ok(()) => b,
                Err(e) => vio!("encrypt: {e:?}"),
            }
        } else {
            out.encrypt_to_vec(&x, ty, None)
        };
        p.feed(&b);
        match p.next(&[]) {
            Some(Ok(k)) => {
                ensure!(
                    k.header == header_of(ty) && k.contents == x,
                    "{ty:?} packet emitted with header {:#04x}",
                    k.header
                );
            }
            _ => vio!("emitted packet does not parse"),
        }
        c.local.evals += 1;
    }
    c.count("headers emitted", 60);
    let i = c.idx;
    c.sig(&[4, i]);
    let _: fn(&mut Rng) -> u64 = Rng::u64;
    let _ = Role::Initiator;
    Ok(())
}

pub fn suite(tier: Tier) -> Suite {
    Suite {
        id: "C11",
        level: "exploration",
        rule: "a case is one reference-built session or handshake whose headers the code under test classifies, or a session whose emitted headers the reference decrypts; distinct by entry point, header value and shape",
        assumptions: vec!["reference cipher checked against RFC 8439 and BIP-324 vectors at start-up"],
        families: vec![
            fam("session", t(tier, 1_500, 12_000), session),
            fam("handshake", t(tier, 38_400, 307_200), handshake),
            fam("many", t(tier, 1_125, 9_000), many),
            fam("emitted", t(tier, 10_000, 80_000), emitted),
            fam("emitted_low", t(tier, 2_500, 20_000), emitted_low),
        ],
        require: vec!["session packets with every header", "handshake headers", "headers emitted"],
    }
}
