//! HTTP/2: reference model and workloads (the driver is shared with HTTP/1).

use crate::ev::*;
use crate::h1::{Case, Fin, Mode, Out};
use crate::rng::Rng;

pub const DATA: u8 = 0; pub const HEADERS: u8 = 1; pub const PRIORITY: u8 = 2; pub const RST: u8 = 3; pub const SETTINGS: u8 = 4;
pub const PUSH: u8 = 5; pub const PING: u8 = 6; pub const GOAWAY: u8 = 7; pub const WINDOW: u8 = 8; pub const CONT: u8 = 9;

/// What a frame contains, worked out from the complete payload (RFC 7540 section 6).
pub struct Frame { pub len: u32, pub ty: u8, pub flags: u8, pub sid: u32 }


/// Events and the number of payload bytes after which each of them is determined.
/// None: the frame is malformed.
fn events(f: &Frame, p: &[u8], out: &mut Vec<(usize, Ev)>) -> bool {
    let len = f.len as usize;
    let ev = |k: K, a: [u64; 4]| Ev { k, a, d: vec![] };
    let be = |i: usize, n: usize| p.get(i..i + n).map(|s| s.iter().fold(0u64, |x, b| x << 8 | *b as u64));
    let m31 = 0x7FFF_FFFFu64;
    // padding
    let mut at = 0;
    let mut pad = 0usize;
    if f.flags & 0x8 != 0 && matches!(f.ty, DATA | HEADERS | PUSH | 10..=255) {
        if len < 1 { return false; }
        match p.first() { Some(b) => pad = *b as usize, None => return true }
        at = 1;
    }
    let (dk, ek) = match f.ty {
        DATA => (K::Data, K::DataEnd),
        HEADERS => {
            if f.flags & 0x20 != 0 {
                if len < at + 5 { return false; }
                // the padding is checked as soon as it is known
                if len - at - 5 < pad { return false; }
                if let (Some(a), Some(w)) = (be(at, 4), be(at + 4, 1)) {
                    out.push((at + 5, ev(K::HeadersF, [a >> 31, a & m31, w, 0])));
                }
                at += 5;
            } else {
                if len - at < pad { return false; }
                out.push((at, ev(K::HeadersF, [0; 4])));
            }
            (K::Frag, K::FragEnd)
        }
        PUSH => {
            if len < at + 4 { return false; }
            if len - at - 4 < pad { return false; }
            if let Some(a) = be(at, 4) { out.push((at + 4, ev(K::PushPromise, [a & m31, 0, 0, 0]))); }
            at += 4;
            (K::Frag, K::FragEnd)
        }
        CONT => (K::Frag, K::FragEnd),
        PING => (K::Ping, K::PingEnd),
        PRIORITY => {
            if len < 5 { return false; }
            if let (Some(a), Some(w)) = (be(0, 4), be(4, 1)) { out.push((5, ev(K::Priority, [a >> 31, a & m31, w, 0]))); }
            return true;
        }
        RST => {
            if len < 4 { return false; }
            if let Some(a) = be(0, 4) { out.push((4, ev(K::Rst, [a, 0, 0, 0]))); }
            return true;
        }
        WINDOW => {
            if len < 4 { return false; }
            if let Some(a) = be(0, 4) { out.push((4, ev(K::Window, [a & m31, 0, 0, 0]))); }
            return true;
        }
        SETTINGS => {
            if len % 6 != 0 { return false; }
            for i in 0..len / 6 {
                if let (Some(a), Some(v)) = (be(i * 6, 2), be(i * 6 + 2, 4)) { out.push((i * 6 + 6, ev(K::Setting, [a, v, 0, 0]))); }
            }
            return true;
        }
        GOAWAY => {
            if len < 8 { return false; }
            if let (Some(s), Some(e)) = (be(0, 4), be(4, 4)) { out.push((8, ev(K::GoAway, [s & m31, e, 0, 0]))); }
            if len == 8 { return true; }
            at = 8;
            (K::Debug, K::DebugEnd)
        }
        _ => (K::Unsup, K::UnsupEnd),
    };
    if len - at < pad { return false; }
    let end = len - pad;
    if p.len() < at { return true; }
    for i in at..end.min(p.len()) { out.push((i + 1, Ev { k: dk, a: [0; 4], d: vec![p[i]] })); }
    if p.len() >= end { out.push((end, ev(ek, [0; 4]))); }
    true
}

pub struct Model2 {
    pub log: Log,
    marks: Vec<(usize, usize)>,
    /// log length right after the frame event of the malformed frame, and where its header ends
    pub bad: Option<(usize, usize, usize)>,
    pub frames: usize,
    pub types: u32,
}

impl Model2 {
    pub fn run(c: &Case) -> Model2 {
        let inp = &c.input;
        let mut m = Model2 { log: Log::default(), marks: vec![(0, 0)], bad: None, frames: 0, types: 0 };
        let mut at = 0;
        let mut evs: Vec<(usize, Ev)> = vec![];
        while at < inp.len() {
            if inp.len() - at < 9 { break; }
            let h = &inp[at..at + 9];
            let f = Frame {
                len: (h[0] as u32) << 16 | (h[1] as u32) << 8 | h[2] as u32, ty: h[3], flags: h[4],
                sid: ((h[5] as u32) << 24 | (h[6] as u32) << 16 | (h[7] as u32) << 8 | h[8] as u32) & 0x7FFF_FFFF,
            };
            let base = at + 9;
            let avail = (inp.len() - base).min(f.len as usize);
            evs.clear();
            let ok = events(&f, &inp[base..base + avail], &mut evs);
            m.push_upto(base - 1);
            m.log.ev(K::Frame, [f.len as u64, f.ty as u64, f.flags as u64, f.sid as u64]);
            m.frames += 1;
            m.types |= 1 << f.ty.min(31);
            if !ok { m.bad = Some((m.log.evs.len(), base, f.len as usize)); return m; }
            for (off, e) in evs.drain(..) {
                if base + off > 0 { m.push_upto((base + off - 1).max(base - 1)); }
                if e.k.is_data() { m.log.data(e.k, &e.d); } else { m.log.evs.push(e); }
            }
            at = base + f.len as usize;
        }
        let n = inp.len();
        m.push_upto(n);
        m
    }
    /// marks[i] is the position after i bytes; fill up to and including index i with the current one
    fn push_upto(&mut self, i: usize) {
        let mk = self.log.mark();
        while self.marks.len() <= i { self.marks.push(mk); }
    }
    pub fn mark_at(&self, off: usize) -> Option<(usize, usize)> { self.marks.get(off).copied() }
}

/// None: conforms.
pub fn cmp_model2(o: &Out, m: &Model2, c: &Case) -> Option<String> {
    match m.bad {
        None => {
            if o.fin != Fin::More { return Some(format!("result is {:?} after {} bytes of well-formed frames", o.fin, o.off)); }
            if o.off != c.input.len() { return Some(format!("{} bytes consumed of {}", o.off, c.input.len())); }
            crate::h1::cmp_events(&o.log, &m.log, false)
        }
        Some((n, base, len)) => {
            let got = &o.log.evs;
            for i in 0..n {
                match got.get(i) {
                    None => return Some(format!("missing event {} {:?}", i, m.log.evs[i])),
                    Some(e) if *e != m.log.evs[i] => return Some(format!("event {} is {:?}, expected {:?}", i, e, m.log.evs[i])),
                    _ => (),
                }
            }
            for e in &got[n..] {
                if !matches!(e.k, K::HeadersF | K::PushPromise | K::Setting) {
                    return Some(format!("{:?} delivered from a malformed frame or after it", e));
                }
            }
            if got.len() > n + 1 && got[n..].iter().any(|e| e.k != K::Setting) {
                return Some(format!("several events from a malformed frame: {:?}", &got[n..]));
            }
            match o.fin {
                Fin::Err(..) => {
                    if o.off < base { return Some(format!("failed after {} bytes, before the malformed frame", o.off)); }
                    if o.off > base + len + 8 { return Some(format!("failed {} bytes behind the header of a malformed frame of {} bytes", o.off - base, len)); }
                    None
                }
                Fin::More if c.input.len() < base + len + 16 => None,
                _ => Some(format!("result is {:?} although the frame with header end {} and length {} is malformed", o.fin, base, len)),
            }
        }
    }
}

pub fn cmp_snaps2(o: &Out, m: &Model2) -> Option<String> {
    for (off, mark) in &o.snaps {
        if let Some((_, base, _)) = m.bad { if *off >= base { continue; } }
        if let Some(want) = m.mark_at(*off) {
            if *mark != want {
                return Some(format!("after {} bytes {} events (last one {} bytes) were delivered, the bytes determine {} (last one {} bytes)",
                                    off, mark.0, mark.1, want.0, want.1));
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------
// Workloads
// ------------------------------------------------------------------------------------------------

pub fn put(v: &mut Vec<u8>, ty: u8, flags: u8, sid: u32, p: &[u8]) { put_len(v, p.len(), ty, flags, sid, p); }
pub fn put_len(v: &mut Vec<u8>, n: usize, ty: u8, flags: u8, sid: u32, p: &[u8]) {
    v.extend(&[(n >> 16) as u8, (n >> 8) as u8, n as u8, ty, flags]);
    v.extend(&sid.to_be_bytes());
    v.extend(p);
}

fn word(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(&[0u32, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF, 0x0102_0304, 0x8182_8384]),
        1 => 1 << r.below(32),
        _ => r.u32(),
    }
}

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> { let m = r.below(4); (0..n).map(|i| match m { 0 => i as u8, 1 => 0, 2 => 0xFF, _ => r.u8() }).collect() }

fn size(r: &mut Rng, big: bool) -> usize {
    match r.below(10) {
        0 | 1 => 0,
        2 => *r.pick(&[1usize, 2, 3, 4, 5, 8, 255, 256, 257]),
        3 if big => *r.pick(&[16383usize, 16384, 65535, 65536, 65537, 70000]),
        _ => r.range(1, 24),
    }
}

pub fn flags(r: &mut Rng) -> u8 { match r.below(4) { 0 => 0, 1 => *r.pick(&[0x1u8, 0x4, 0x8, 0x20, 0x28, 0x2D]), 2 => r.u8(), _ => r.u8() & !0x8 } }

/// One well-formed frame.
pub fn frame(r: &mut Rng, big: bool, v: &mut Vec<u8>) {
    let ty = match r.below(12) { 10 => *r.pick(&[10u8, 11, 0x10, 0x7F, 0x80, 0xFE, 0xFF]), 11 => r.u8(), x => x as u8 };
    let fl = flags(r);
    let sid = word(r);
    let mut p = Vec::new();
    let padded = fl & 8 != 0 && matches!(ty, DATA | HEADERS | PUSH | 10..=255);
    let pad = if padded { match r.below(5) { 0 => 0, 1 => 255, 2 => 1, _ => r.below(20) } } else { 0 };
    if padded { p.push(pad as u8); }
    match ty {
        HEADERS if fl & 0x20 != 0 => { p.extend(&word(r).to_be_bytes()); p.push(r.u8()); }
        PUSH => p.extend(&word(r).to_be_bytes()),
        PRIORITY => { p.extend(&word(r).to_be_bytes()); p.push(r.u8()); }
        RST | WINDOW => p.extend(&word(r).to_be_bytes()),
        SETTINGS => for _ in 0..r.below(5) { let id = if r.bool() { r.below(8) as u16 } else { word(r) as u16 }; p.extend(&id.to_be_bytes()); p.extend(&word(r).to_be_bytes()); },
        GOAWAY => { p.extend(&word(r).to_be_bytes()); p.extend(&word(r).to_be_bytes()); }
        _ => (),
    }
    if matches!(ty, PRIORITY | RST | WINDOW) {
        if r.chance(1, 6) { let n = r.range(1, 12); p.extend(bytes(r, n)); }
    } else if ty != SETTINGS {
        let n = if ty == PING && r.bool() { 8 } else { size(r, big) };
        p.extend(bytes(r, n));
    }
    let b = bytes(r, pad);
    p.extend(b);
    put(v, ty, fl, sid, &p);
}

pub fn stream(r: &mut Rng, big: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.range(1, 6) { frame(r, big, &mut v); }
    v
}

/// Streams with a malformed length somewhere, followed by more.
pub fn malformed(r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.below(3) { frame(r, false, &mut v); }
    let ty = r.below(12) as u8;
    let fl = match r.below(4) { 0 => 0, 1 => 0x8, 2 => 0x28, _ => r.u8() };
    if r.chance(1, 400) { let n = 1usize << r.range(8, 17); let n = n + r.below(3) - 1; let t = *r.pick(&[0u8, 4, 6, 9, 200]); let p = vec![7; if t == 4 { n / 6 * 6 } else if t == 6 { 8 } else { n }]; put(&mut v, t, 0, 1, &p); }
    let n = match r.below(16) { 0 => r.range(14, 270), 1 if ty == 4 => { let n = 1usize << r.range(4, 14); n + r.below(5) } _ => r.below(14) };
    let mut p = bytes(r, n);
    if !p.is_empty() && r.bool() { p[0] = r.range(n.saturating_sub(6).min(255), (n + 3).min(255)) as u8; }
    put(&mut v, ty, fl, word(r), &p);
    // what follows looks like frames wherever it is entered
    match r.below(3) {
        0 => for _ in 0..3 { frame(r, false, &mut v); },
        1 => v.extend(vec![0u8; 40]),
        _ => { let n = r.below(60); v.extend(bytes(r, n)); }
    }
    v
}

pub fn any2(r: &mut Rng, big: bool) -> Case {
    let v = match r.below(8) {
        0..=3 => stream(r, big),
        4 | 5 => malformed(r),
        6 => { let mut v = stream(r, false); let n = r.below(v.len() + 1); v.truncate(n); v }
        _ => {
            let mut v = stream(r, false);
            for _ in 0..r.range(1, 3) { let i = r.below(v.len()); v[i] = match r.below(3) { 0 => r.u8(), 1 => v[i] ^ (1 << r.below(8)), _ => *r.pick(&[0u8, 1, 4, 5, 6, 8, 9, 255]) }; }
            v
        }
    };
    Case::new(Mode::H2, v)
}

pub fn templates2() -> Vec<Case> {
    let mut out = vec![];
    let mut t = |f: &dyn Fn(&mut Vec<u8>)| { let mut v = vec![]; f(&mut v); out.push(Case::new(Mode::H2, v)); };
    t(&|v| { put(v, DATA, 0, 1, b"hello"); put(v, PING, 1, 0, b"01234567"); });
    t(&|v| { put(v, DATA, 9, 0x8000_0001, b"\x03abcPPP"); put(v, DATA, 8, 2, b"\x00abc"); put(v, DATA, 8, 2, b"\x02PP"); put(v, RST, 0, 3, b"\x81\x02\x03\x84"); });
    t(&|v| { put(v, DATA, 0, 1, b""); put(v, DATA, 8, 1, b"\x00"); put(v, PING, 0, 0, b""); put(v, SETTINGS, 1, 0, b""); put(v, CONT, 4, 1, b""); });
    t(&|v| { put(v, HEADERS, 0x2C, 5, b"\x02\x80\x01\x02\x03\x10fragPP"); put(v, HEADERS, 0x20, 5, b"\x7F\xFF\xFF\xFF\xFF"); put(v, HEADERS, 8, 5, b"\x01aP"); put(v, HEADERS, 0, 5, b"abc"); put(v, HEADERS, 4, 7, b""); });
    t(&|v| { put(v, PRIORITY, 0, 5, b"\x80\x01\x02\x03\x10"); put(v, PRIORITY, 0, 5, b"\x01\x01\x02\x03\x10extra"); put(v, WINDOW, 0, 5, b"\xFF\x01\x02\x03"); put(v, WINDOW, 0, 0, b"\x00\x01\x02\x03\x04"); });
    t(&|v| { put(v, SETTINGS, 0, 0, b"\x00\x01\x81\x02\x03\x04\x00\x06\xFF\xFF\xFF\xFF\xAB\xCD\x00\x00\x00\x01"); put(v, SETTINGS, 0, 0, b""); put(v, SETTINGS, 0, 0, b"\x00\x03\x00\x00\x00\x64"); });
    t(&|v| { put(v, PUSH, 0xC, 9, b"\x02\x80\x01\x02\x03fragPP"); put(v, PUSH, 0, 9, b"\x01\x02\x03\x04"); put(v, CONT, 4, 9, b"more"); put(v, CONT, 0xC, 9, b"\x01x"); });
    t(&|v| { put(v, GOAWAY, 0, 0, b"\x80\x01\x02\x03\x81\x82\x83\x84"); put(v, GOAWAY, 8, 0, b"\x00\x01\x02\x03\x00\x00\x00\x0Bdebug"); put(v, 0xFA, 0, 3, b"unknown"); put(v, 10, 8, 3, b"\x02uPP"); });
    t(&|v| { put(v, 255, 8, 0xFFFF_FFFF, b"\x00"); put(v, 11, 0xF7, 3, b""); put(v, PING, 8, 0, b"12345678"); put(v, RST, 0xFF, 3, b"\x00\x00\x00\x08x"); });
    // malformed
    for (ty, fl, p) in [
        (DATA, 8u8, &b"\x04abc"[..]), (DATA, 8, b""), (HEADERS, 8, b"\x03ab"), (HEADERS, 0x28, b"\x02\x80\x01\x02\x03\x10a"), (HEADERS, 0x20, b"\x80\x01\x02\x03"),
        (PRIORITY, 0, b"\x80\x01\x02\x03"), (RST, 0, b"\x80\x01\x02"), (SETTINGS, 0, b"\x00\x01\x81\x02\x03"), (SETTINGS, 0, b"\x00\x01\x81\x02\x03\x04\x05"),
        (PUSH, 0, b"\x01\x02\x03"), (PUSH, 8, b"\x01\x01\x02\x03\x04"), (PUSH, 8, b"\x00\x01\x02\x03"), (GOAWAY, 0, b"1234567"), (WINDOW, 0, b"\x01\x02\x03"), (12, 8, b"\xFFabc"), (HEADERS, 0x28, b""),
        (PRIORITY, 0, b""), (RST, 0, b""), (WINDOW, 0, b""), (GOAWAY, 0, b""), (PUSH, 0, b""),
    ] {
        t(&|v| { put(v, DATA, 0, 1, b"x"); put(v, ty, fl, 1, p); put(v, DATA, 0, 1, b"\x00\x00\x01\x00\x00\x00\x00\x00\x01y"); put(v, PING, 0, 0, b"01234567"); });
    }
    out
}
