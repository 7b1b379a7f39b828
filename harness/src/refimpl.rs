//! Independent reference implementation of BIP-324 used as the oracle. Nothing in here calls the
//! code under test or its cryptography dependencies.

// ---------------------------------------------------------------- SHA-256 / HMAC / HKDF

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(data: &[&[u8]]) -> [u8; 32] {
    let mut m: Vec<u8> = Vec::new();
    for d in data {
        m.extend_from_slice(d);
    }
    let bits = (m.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(K[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn hmac(key: &[u8], data: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let ik: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let ok: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut parts: Vec<&[u8]> = vec![&ik];
    parts.extend_from_slice(data);
    let inner = sha256(&parts);
    sha256(&[&ok, &inner])
}

fn hkdf32(salt: &[u8], ikm: &[u8], info: &[u8]) -> [u8; 32] {
    let prk = hmac(salt, &[ikm]);
    hmac(&prk, &[info, &[1u8]])
}

// ---------------------------------------------------------------- ChaCha20 / Poly1305

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub fn chacha_block(key: &[u8; 32], nonce: &[u8; 12], ctr: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let init = s;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

fn chacha_xor(key: &[u8; 32], nonce: &[u8; 12], mut ctr: u32, data: &mut [u8]) {
    for c in data.chunks_mut(64) {
        let ks = chacha_block(key, nonce, ctr);
        for (d, k) in c.iter_mut().zip(ks.iter()) {
            *d ^= *k;
        }
        ctr = ctr.wrapping_add(1);
    }
}

/// Poly1305 over zero-padded segments (aad, ciphertext) and the length block.
struct Poly {
    r: [u64; 3],
    s: [u64; 2],
    h: [u64; 3],
    pad: [u64; 2],
}

const M44: u64 = 0xfffffffffff;
const M42: u64 = 0x3ffffffffff;

impl Poly {
    fn new(key: &[u8]) -> Self {
        let t0 = u64::from_le_bytes(key[0..8].try_into().unwrap());
        let t1 = u64::from_le_bytes(key[8..16].try_into().unwrap());
        let r0 = t0 & 0xffc0fffffff;
        let r1 = ((t0 >> 44) | (t1 << 20)) & 0xfffffc0ffff;
        let r2 = (t1 >> 24) & 0x00ffffffc0f;
        Poly {
            r: [r0, r1, r2],
            s: [r1 * 20, r2 * 20],
            h: [0; 3],
            pad: [
                u64::from_le_bytes(key[16..24].try_into().unwrap()),
                u64::from_le_bytes(key[24..32].try_into().unwrap()),
            ],
        }
    }
    fn block(&mut self, b: &[u8; 16]) {
        let t0 = u64::from_le_bytes(b[0..8].try_into().unwrap());
        let t1 = u64::from_le_bytes(b[8..16].try_into().unwrap());
        let h0 = self.h[0] + (t0 & M44);
        let h1 = self.h[1] + (((t0 >> 44) | (t1 << 20)) & M44);
        let h2 = self.h[2] + (((t1 >> 24) & M42) | (1 << 40));
        let m = |a: u64, b: u64| a as u128 * b as u128;
        let d0 = m(h0, self.r[0]) + m(h1, self.s[1]) + m(h2, self.s[0]);
        let mut d1 = m(h0, self.r[1]) + m(h1, self.r[0]) + m(h2, self.s[1]);
        let mut d2 = m(h0, self.r[2]) + m(h1, self.r[1]) + m(h2, self.r[0]);
        let c = (d0 >> 44) as u64;
        self.h[0] = d0 as u64 & M44;
        d1 += c as u128;
        let c = (d1 >> 44) as u64;
        self.h[1] = d1 as u64 & M44;
        d2 += c as u128;
        let c = (d2 >> 42) as u64;
        self.h[2] = d2 as u64 & M42;
        self.h[0] += c * 5;
        let c = self.h[0] >> 44;
        self.h[0] &= M44;
        self.h[1] += c;
    }
    fn padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            self.block(&b);
        }
    }
    fn finish(mut self) -> [u8; 16] {
        let mut c;
        for _ in 0..2 {
            c = self.h[1] >> 44;
            self.h[1] &= M44;
            self.h[2] += c;
            c = self.h[2] >> 42;
            self.h[2] &= M42;
            self.h[0] += c * 5;
            c = self.h[0] >> 44;
            self.h[0] &= M44;
            self.h[1] += c;
        }
        // 130 bit value: h0 | h1<<44 | h2<<88, as (lo128, hi2)
        let (h0, h1, h2) = (self.h[0] as u128, self.h[1] as u128, self.h[2] as u128);
        // add 5 and see whether it reaches 2^130
        let g0 = h0 + 5;
        let g1 = h1 + (g0 >> 44);
        let g2 = h2 + (g1 >> 44);
        let (a, b, d) = if g2 >> 42 != 0 {
            (g0 & M44 as u128, g1 & M44 as u128, g2 & M42 as u128)
        } else {
            (h0, h1, h2)
        };
        let v = a | (b << 44) | (d << 88); // truncated to 128 bits
        let p = self.pad[0] as u128 | ((self.pad[1] as u128) << 64);
        v.wrapping_add(p).to_le_bytes()
    }
}

fn aead_tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk = chacha_block(key, nonce, 0);
    let mut p = Poly::new(&otk[..32]);
    p.padded(aad);
    p.padded(ct);
    let mut l = [0u8; 16];
    l[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
    l[8..].copy_from_slice(&(ct.len() as u64).to_le_bytes());
    p.block(&l);
    p.finish()
}

pub fn aead_encrypt(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], data: &mut [u8]) -> [u8; 16] {
    chacha_xor(key, nonce, 1, data);
    aead_tag(key, nonce, aad, data)
}

pub fn aead_decrypt(
    key: &[u8; 32],
    nonce: &[u8; 12],
    aad: &[u8],
    data: &mut [u8],
    tag: &[u8],
) -> bool {
    if aead_tag(key, nonce, aad, data) != tag {
        return false;
    }
    chacha_xor(key, nonce, 1, data);
    true
}

// ---------------------------------------------------------------- forward secret ciphers

#[derive(Clone)]
pub struct RefLen {
    key: [u8; 32],
    n: u64,
    stream: Vec<u8>,
    epoch: Option<u64>,
}

impl RefLen {
    pub fn new(key: [u8; 32]) -> Self {
        RefLen {
            key,
            n: 0,
            stream: Vec::new(),
            epoch: None,
        }
    }
    pub fn seek(&mut self, n: u64) {
        self.n = n;
        self.epoch = None;
    }
    pub fn crypt(&mut self, c: [u8; 3]) -> [u8; 3] {
        let e = self.n / 224;
        if self.epoch != Some(e) {
            let mut nonce = [0u8; 12];
            nonce[4..].copy_from_slice(&e.to_le_bytes());
            self.stream.clear();
            for b in 0..11 {
                self.stream
                    .extend_from_slice(&chacha_block(&self.key, &nonce, b));
            }
            self.epoch = Some(e);
        }
        let o = (self.n % 224) as usize * 3;
        let r = [
            c[0] ^ self.stream[o],
            c[1] ^ self.stream[o + 1],
            c[2] ^ self.stream[o + 2],
        ];
        self.n += 1;
        if self.n % 224 == 0 {
            self.key = self.stream[672..704].try_into().unwrap();
        }
        r
    }
}

#[derive(Clone)]
pub struct RefAead {
    key: [u8; 32],
    n: u64,
}

impl RefAead {
    pub fn new(key: [u8; 32]) -> Self {
        RefAead { key, n: 0 }
    }
    pub fn seek(&mut self, n: u64) {
        self.n = n;
    }
    fn nonce(&self) -> [u8; 12] {
        let mut x = [0u8; 12];
        x[..4].copy_from_slice(&((self.n % 224) as u32).to_le_bytes());
        x[4..].copy_from_slice(&(self.n / 224).to_le_bytes());
        x
    }
    fn step(&mut self) {
        if self.n % 224 == 223 {
            let mut x = self.nonce();
            x[..4].copy_from_slice(&[0xff; 4]);
            // first 32 bytes of an AEAD encryption of zeros
            let b = chacha_block(&self.key, &x, 1);
            self.key.copy_from_slice(&b[..32]);
        }
        self.n += 1;
    }
    pub fn encrypt(&mut self, aad: &[u8], data: &mut [u8]) -> [u8; 16] {
        let t = aead_encrypt(&self.key, &self.nonce(), aad, data);
        self.step();
        t
    }
    pub fn decrypt(&mut self, aad: &[u8], data: &mut [u8], tag: &[u8]) -> bool {
        let ok = aead_decrypt(&self.key, &self.nonce(), aad, data, tag);
        if ok {
            self.step();
        }
        ok
    }
}

/// One direction of a session.
#[derive(Clone)]
pub struct RefDir {
    pub l: RefLen,
    pub p: RefAead,
}

impl RefDir {
    pub fn new(lk: [u8; 32], pk: [u8; 32]) -> Self {
        RefDir {
            l: RefLen::new(lk),
            p: RefAead::new(pk),
        }
    }
    pub fn seek(&mut self, n: u64) {
        self.l.seek(n);
        self.p.seek(n);
    }
    pub fn pos(&self) -> u64 {
        self.p.n
    }
    /// The complete packet for the given header and contents.
    pub fn packet(&mut self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let n = contents.len();
        assert!(n < 1 << 24);
        let len = self.l.crypt([n as u8, (n >> 8) as u8, (n >> 16) as u8]);
        let mut v = Vec::with_capacity(n + 20);
        v.extend_from_slice(&len);
        v.push(header);
        v.extend_from_slice(contents);
        let t = self.p.encrypt(aad, &mut v[3..]);
        v.extend_from_slice(&t);
        v
    }
    /// A packet whose encrypted bytes contain `want` at offset `at` of the encrypted contents:
    /// a peer chooses its plaintext freely, so it can send any ciphertext.
    pub fn packet_showing(&mut self, header: u8, contents: &[u8], at: usize, want: &[u8], aad: &[u8]) -> Vec<u8> {
        let probe = self.clone().packet(header, contents, aad);
        let mut c = contents.to_vec();
        for (i, w) in want.iter().enumerate() {
            c[at + i] ^= probe[4 + at + i] ^ w;
        }
        let v = self.packet(header, &c, aad);
        assert_eq!(&v[4 + at..4 + at + want.len()], want);
        v
    }
    /// A length announcement only (no body), for hostile peers.
    pub fn announce(&mut self, n: usize) -> [u8; 3] {
        self.l.crypt([n as u8, (n >> 8) as u8, (n >> 16) as u8])
    }
}

/// Incremental parser of a packet stream.
pub struct RefParser {
    pub dir: RefDir,
    buf: Vec<u8>,
    pos: usize,
    len: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefPacket {
    pub header: u8,
    pub contents: Vec<u8>,
    /// Stream offset just after the packet.
    pub end: usize,
}

impl RefParser {
    pub fn new(dir: RefDir) -> Self {
        RefParser {
            dir,
            buf: Vec::new(),
            pos: 0,
            len: None,
        }
    }
    pub fn feed(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    /// Bytes not yet consumed by a complete packet.
    pub fn pending(&self) -> usize {
        self.buf.len() - self.pos + if self.len.is_some() { 3 } else { 0 }
    }
    pub fn next(&mut self, aad: &[u8]) -> Option<Result<RefPacket, String>> {
        if self.len.is_none() {
            if self.buf.len() - self.pos < 3 {
                return None;
            }
            let l = self
                .dir
                .l
                .crypt(self.buf[self.pos..self.pos + 3].try_into().unwrap());
            self.pos += 3;
            self.len = Some(l[0] as usize | (l[1] as usize) << 8 | (l[2] as usize) << 16);
        }
        let n = self.len.unwrap() + 17;
        if self.buf.len() - self.pos < n {
            return None;
        }
        let mut d = self.buf[self.pos..self.pos + n].to_vec();
        self.pos += n;
        let tag = d.split_off(n - 16);
        if !self.dir.p.decrypt(aad, &mut d, &tag) {
            return Some(Err(format!(
                "packet {} ending at stream offset {} (announced contents {}) does not authenticate",
                self.dir.p.n,
                self.pos,
                n - 17
            )));
        }
        self.len = None;
        Some(Ok(RefPacket {
            header: d[0],
            contents: d[1..].to_vec(),
            end: self.pos,
        }))
    }
}

// ---------------------------------------------------------------- secp256k1

pub type Fe = [u64; 4]; // little endian limbs, < p

const P: Fe = [
    0xFFFFFFFEFFFFFC2F,
    0xFFFFFFFFFFFFFFFF,
    0xFFFFFFFFFFFFFFFF,
    0xFFFFFFFFFFFFFFFF,
];
const ONE: Fe = [1, 0, 0, 0];
const ZERO: Fe = [0; 4];
const C: u64 = 0x1000003D1; // 2^256 - p

fn ge_p(a: &Fe) -> bool {
    for i in (0..4).rev() {
        if a[i] != P[i] {
            return a[i] > P[i];
        }
    }
    true
}

fn sub_raw(a: &Fe, b: &Fe) -> (Fe, bool) {
    let mut r = [0u64; 4];
    let mut bor = 0u64;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bor);
        r[i] = y;
        bor = (b1 | b2) as u64;
    }
    (r, bor == 1)
}

pub fn fe_from(b: &[u8]) -> Fe {
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    if ge_p(&r) {
        r = sub_raw(&r, &P).0;
    }
    r
}

pub fn fe_bytes(a: &Fe) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&a[3 - i].to_be_bytes());
    }
    o
}

fn add(a: &Fe, b: &Fe) -> Fe {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    if c == 1 || ge_p(&r) {
        r = sub_raw(&r, &P).0;
    }
    r
}
fn sub(a: &Fe, b: &Fe) -> Fe {
    let (r, bor) = sub_raw(a, b);
    if bor {
        // add p back
        let mut o = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = r[i] as u128 + P[i] as u128 + c;
            o[i] = t as u64;
            c = t >> 64;
        }
        o
    } else {
        r
    }
}
fn neg(a: &Fe) -> Fe {
    sub(&ZERO, a)
}
pub fn mul(a: &Fe, b: &Fe) -> Fe {
    let mut w = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let t = a[i] as u128 * b[j] as u128 + w[i + j] as u128 + c;
            w[i + j] = t as u64;
            c = t >> 64;
        }
        w[i + 4] = c as u64;
    }
    // fold high 256 bits twice
    let mut r = [0u64; 5];
    let mut c = 0u128;
    for i in 0..4 {
        let t = w[i] as u128 + w[i + 4] as u128 * C as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    r[4] = c as u64;
    let mut o = [0u64; 4];
    let mut c = r[4] as u128 * C as u128;
    for i in 0..4 {
        let t = r[i] as u128 + (c & 0xffffffffffffffff);
        o[i] = t as u64;
        c = (c >> 64) + (t >> 64);
    }
    if c != 0 {
        let mut k = C as u128;
        for limb in o.iter_mut() {
            let t = *limb as u128 + k;
            *limb = t as u64;
            k = t >> 64;
        }
    }
    if ge_p(&o) {
        o = sub_raw(&o, &P).0;
    }
    o
}
fn sqr(a: &Fe) -> Fe {
    mul(a, a)
}
fn pow(a: &Fe, e: &Fe) -> Fe {
    let mut r = ONE;
    for i in (0..256).rev() {
        r = sqr(&r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = mul(&r, a);
        }
    }
    r
}
fn inv(a: &Fe) -> Fe {
    let mut e = P;
    e[0] -= 2;
    pow(a, &e)
}
pub fn sqrt(a: &Fe) -> Option<Fe> {
    // (p+1)/4
    let e: Fe = [
        0xFFFFFFFFBFFFFF0C,
        0xFFFFFFFFFFFFFFFF,
        0xFFFFFFFFFFFFFFFF,
        0x3FFFFFFFFFFFFFFF,
    ];
    let r = pow(a, &e);
    if sqr(&r) == *a {
        Some(r)
    } else {
        None
    }
}
pub fn small(n: u64) -> Fe {
    [n, 0, 0, 0]
}
pub fn curve_rhs(x: &Fe) -> Fe {
    add(&mul(&sqr(x), x), &small(7))
}
pub fn fe_neg(a: &Fe) -> Fe {
    neg(a)
}

/// Which of the three candidate x coordinates was taken (for coverage), and the coordinate.
pub fn xswiftec(enc: &[u8; 64]) -> (usize, Fe) {
    let mut u = fe_from(&enc[..32]);
    let mut t = fe_from(&enc[32..]);
    if u == ZERO {
        u = ONE;
    }
    if t == ZERO {
        t = ONE;
    }
    let u3 = mul(&sqr(&u), &u);
    if add(&add(&u3, &sqr(&t)), &small(7)) == ZERO {
        t = add(&t, &t);
    }
    let c = sqrt(&neg(&small(3))).unwrap();
    let x = mul(
        &sub(&add(&u3, &small(7)), &sqr(&t)),
        &inv(&add(&t, &t)),
    );
    let cu = mul(&c, &u);
    let y = mul(&add(&x, &t), &inv(&cu));
    let half = inv(&small(2));
    let xy = mul(&x, &inv(&y));
    // Both square roots of -3 give the same set; the BIP fixes the even-ness by choosing
    // MINUS_3_SQRT as the principal root returned by (a^((p+1)/4)).
    let cand = [
        add(&u, &mul(&small(4), &sqr(&y))),
        mul(&sub(&neg(&xy), &u), &half),
        mul(&sub(&xy, &u), &half),
    ];
    for (i, k) in cand.iter().enumerate() {
        if sqrt(&curve_rhs(k)).is_some() {
            return (i, *k);
        }
    }
    unreachable!("no valid x in XSwiftEC")
}

#[derive(Clone, Copy)]
struct Jac {
    x: Fe,
    y: Fe,
    z: Fe,
}

fn dbl(p: &Jac) -> Jac {
    if p.z == ZERO || p.y == ZERO {
        return Jac {
            x: ONE,
            y: ONE,
            z: ZERO,
        };
    }
    let a = sqr(&p.x);
    let b = sqr(&p.y);
    let c = sqr(&b);
    let d0 = sub(&sub(&sqr(&add(&p.x, &b)), &a), &c);
    let d = add(&d0, &d0);
    let e = add(&add(&a, &a), &a);
    let f = sqr(&e);
    let x = sub(&f, &add(&d, &d));
    let c2 = add(&c, &c);
    let c4 = add(&c2, &c2);
    let c8 = add(&c4, &c4);
    let y = sub(&mul(&e, &sub(&d, &x)), &c8);
    let yz = mul(&p.y, &p.z);
    Jac {
        x,
        y,
        z: add(&yz, &yz),
    }
}
fn padd(p: &Jac, q: &Jac) -> Jac {
    if p.z == ZERO {
        return *q;
    }
    if q.z == ZERO {
        return *p;
    }
    let z1 = sqr(&p.z);
    let z2 = sqr(&q.z);
    let u1 = mul(&p.x, &z2);
    let u2 = mul(&q.x, &z1);
    let s1 = mul(&p.y, &mul(&z2, &q.z));
    let s2 = mul(&q.y, &mul(&z1, &p.z));
    if u1 == u2 {
        if s1 == s2 {
            return dbl(p);
        }
        return Jac {
            x: ONE,
            y: ONE,
            z: ZERO,
        };
    }
    let h = sub(&u2, &u1);
    let r = sub(&s2, &s1);
    let h2 = sqr(&h);
    let h3 = mul(&h2, &h);
    let v = mul(&u1, &h2);
    let x = sub(&sub(&sqr(&r), &h3), &add(&v, &v));
    let y = sub(&mul(&r, &sub(&v, &x)), &mul(&s1, &h3));
    Jac {
        x,
        y,
        z: mul(&mul(&p.z, &q.z), &h),
    }
}

/// x coordinate of scalar * (x, +-y).
pub fn mul_x(scalar: &[u8; 32], x: &Fe) -> [u8; 32] {
    let y = sqrt(&curve_rhs(x)).expect("x on curve");
    let base = Jac { x: *x, y, z: ONE };
    let mut r = Jac {
        x: ONE,
        y: ONE,
        z: ZERO,
    };
    for i in 0..256 {
        r = dbl(&r);
        if (scalar[i / 8] >> (7 - i % 8)) & 1 == 1 {
            r = padd(&r, &base);
        }
    }
    assert!(r.z != ZERO);
    let zi = inv(&r.z);
    fe_bytes(&mul(&r.x, &sqr(&zi)))
}

pub fn gx() -> Fe {
    fe_from(&crate::util::unhex(
        "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798",
    ))
}

pub const ORDER: [u8; 32] = [
    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFE,
    0xBA, 0xAE, 0xDC, 0xE6, 0xAF, 0x48, 0xA0, 0x3B, 0xBF, 0xD2, 0x5E, 0x8C, 0xD0, 0x36, 0x41, 0x41,
];

// ---------------------------------------------------------------- session keys

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RefKeys {
    pub session_id: [u8; 32],
    pub init_l: [u8; 32],
    pub init_p: [u8; 32],
    pub resp_l: [u8; 32],
    pub resp_p: [u8; 32],
    pub term_i: [u8; 16],
    pub term_r: [u8; 16],
}

/// `own_secret` multiplies the point decoded from `other_enc`; the transcript hashes the
/// initiator's encoding first.
pub fn derive(
    own_secret: &[u8; 32],
    init_enc: &[u8; 64],
    resp_enc: &[u8; 64],
    own_is_init: bool,
    magic: &[u8; 4],
) -> RefKeys {
    let other = if own_is_init { resp_enc } else { init_enc };
    let x = mul_x(own_secret, &xswiftec(other).1);
    let tag = sha256(&[b"bip324_ellswift_xonly_ecdh"]);
    let shared = sha256(&[&tag, &tag, init_enc, resp_enc, &x]);
    let mut salt = b"bitcoin_v2_shared_secret".to_vec();
    salt.extend_from_slice(magic);
    let g = hkdf32(&salt, &shared, b"garbage_terminators");
    RefKeys {
        session_id: hkdf32(&salt, &shared, b"session_id"),
        init_l: hkdf32(&salt, &shared, b"initiator_L"),
        init_p: hkdf32(&salt, &shared, b"initiator_P"),
        resp_l: hkdf32(&salt, &shared, b"responder_L"),
        resp_p: hkdf32(&salt, &shared, b"responder_P"),
        term_i: g[..16].try_into().unwrap(),
        term_r: g[16..].try_into().unwrap(),
    }
}

impl RefKeys {
    /// (what `init` sends, what `init` receives) when `as_init`, swapped otherwise.
    pub fn dirs(&self, as_init: bool) -> (RefDir, RefDir) {
        let i = RefDir::new(self.init_l, self.init_p);
        let r = RefDir::new(self.resp_l, self.resp_p);
        if as_init {
            (i, r)
        } else {
            (r, i)
        }
    }
    pub fn terms(&self, as_init: bool) -> ([u8; 16], [u8; 16]) {
        if as_init {
            (self.term_i, self.term_r)
        } else {
            (self.term_r, self.term_i)
        }
    }
}

/// Check the reference itself against published vectors and against libsecp256k1.
pub fn self_test() -> Result<(), String> {
    use crate::util::{unhex, Rng};
    let e = |m: &str| Err(format!("reference self test failed: {m}"));
    if sha256(&[b"abc"]).to_vec()
        != unhex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
    {
        return e("sha256");
    }
    // RFC 5869 test case 1 (first block of the output).
    let okm = hkdf32(
        &unhex("000102030405060708090a0b0c"),
        &[0x0b; 22],
        &unhex("f0f1f2f3f4f5f6f7f8f9"),
    );
    if okm.to_vec() != unhex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf") {
        return e("hkdf");
    }
    // RFC 8439 2.8.2
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f")
        .try_into()
        .unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let mut d = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.".to_vec();
    let tag = aead_encrypt(&key, &nonce, &unhex("50515253c0c1c2c3c4c5c6c7"), &mut d);
    if tag.to_vec() != unhex("1ae10b594f09e26a7e902ecbd0600691")
        || d[..16].to_vec() != unhex("d31a8d34648e60db7b86afbc53ef7ec2")
    {
        return e("aead");
    }
    // BIP-324 packet encoding vector 1 (responder side is not needed: in_initiating = 1).
    let priv1: [u8; 32] =
        unhex("61062ea5071d800bbfd59e2e8b53d47d194b095ae5a4df04936b49772ef0d4d7")
            .try_into()
            .unwrap();
    let a: [u8; 64] = unhex("ec0adff257bbfe500c188c80b4fdd640f6b45a482bbc15fc7cef5931deff0aa186f6eb9bba7b85dc4dcc28b28722de1e3d9108b985e2967045668f66098e475b").try_into().unwrap();
    let b: [u8; 64] = unhex("a4a94dfce69b4a2a0a099313d10f9f7e7d649d60501c9e1d274c300e0d89aafaffffffffffffffffffffffffffffffffffffffffffffffffffffffff8faf88d5").try_into().unwrap();
    let k = derive(&priv1, &a, &b, true, &[0xF9, 0xBE, 0xB4, 0xD9]);
    if k.session_id.to_vec()
        != unhex("ce72dffb015da62b0d0f5474cab8bc72605225b0cee3f62312ec680ec5f41ba5")
        || k.term_i.to_vec() != unhex("faef555dfcdb936425d84aba524758f3")
        || k.term_r.to_vec() != unhex("02cb8ff24307a6e27de3b4e7ea3fa65b")
    {
        return e("bip324 vector 1");
    }
    let (mut snd, _) = k.dirs(true);
    snd.packet(0, b"", b"");
    let p = snd.packet(0, &unhex("8e"), b"");
    if p != unhex("7530d2a18720162ac09c25329a60d75adf36eda3c3") {
        return e("bip324 vector 1 packet");
    }
    // Against libsecp256k1: decoding of random and degenerate encodings, multiplication.
    let mut r = Rng::new(7);
    for i in 0..40 {
        let mut enc: [u8; 64] = r.arr();
        match i {
            0 => enc[..32].fill(0),
            1 => enc[32..].fill(0),
            2 => enc.fill(0),
            3 => enc.fill(0xff),
            4 => enc[..32].fill(0xff),
            5 => enc[32..].fill(0xff),
            _ => {}
        }
        let es = secp256k1::ellswift::ElligatorSwift::from_array(enc);
        let pk = secp256k1::PublicKey::from_ellswift(es).serialize();
        if pk[1..] != fe_bytes(&xswiftec(&enc).1) {
            return e("xswiftec against libsecp256k1");
        }
        let sk: [u8; 32] = r.arr();
        let s = secp256k1::Secp256k1::new();
        let want = secp256k1::SecretKey::from_slice(&sk)
            .unwrap()
            .public_key(&s)
            .serialize();
        if want[1..] != mul_x(&sk, &gx()) {
            return e("scalar multiplication against libsecp256k1");
        }
    }
    Ok(())
}
