//! HTTP/1: case description, driver with online monitors, and the reference model.

use crate::ev::*;
use crate::rng::Rng;
use http_box::fsm::Success;
use http_box::http1::{Parser, ParserError};

// ------------------------------------------------------------------------------------------------
// Cases
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode { New, Head, Chunked, Multipart, Url, H2 }

pub const MODES: [Mode; 5] = [Mode::New, Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url];

/// What the caller does after a `Callback` result.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum After { Rest, Next, Mixed(u64) }

#[derive(Clone, PartialEq)]
pub struct Case {
    pub mode: Mode,
    pub input: Vec<u8>,
    /// lengths of the slices, they add up to the input length
    pub frags: Vec<usize>,
    pub intr: Intr,
    pub after: After,
    pub boundary: Vec<u8>,
    pub length: usize,
    /// replies of content_length(), used in turn
    pub cls: Vec<Option<usize>>,
}

impl Case {
    pub fn new(mode: Mode, input: Vec<u8>) -> Case {
        let n = input.len();
        Case { mode, input, frags: vec![n], intr: Intr::None, after: After::Rest,
                 boundary: b"b".to_vec(), length: n, cls: vec![] }
    }
    pub fn whole(&self) -> Case {
        Case { frags: vec![self.input.len()], intr: Intr::None, after: After::Rest, ..self.clone() }
    }
    pub fn with_frags(&self, f: Vec<usize>) -> Case { Case { frags: f, ..self.clone() } }
    pub fn hash(&self) -> u64 {
        use crate::rng::{hash_bytes, mix};
        let mut h = hash_bytes(self.mode as u64, &self.input);
        for f in &self.frags { h = mix(h ^ *f as u64); }
        h = hash_bytes(h, format!("{:?}{:?}", self.intr, self.after).as_bytes());
        h = hash_bytes(h, &self.boundary);
        mix(h ^ self.length as u64)
    }
}

impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?} input=\"{}\" ({} bytes) slices={:?} replies={:?} after_callback={:?}",
               self.mode, show(&self.input), self.input.len(), short(&self.frags), self.intr, self.after)?;
        if self.mode == Mode::Multipart {
            write!(f, " boundary=\"{}\" content_length={:?}", show(&self.boundary), self.cls)?;
        }
        if self.mode == Mode::Url { write!(f, " set_length={}", self.length)?; }
        Ok(())
    }
}

pub fn short(v: &[usize]) -> String {
    if v.len() <= 24 { format!("{:?}", v) } else { format!("{:?}.. ({} slices)", &v[..24], v.len()) }
}

// ------------------------------------------------------------------------------------------------
// Outcomes
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EK {
    ChunkExtensionName, ChunkExtensionValue, ChunkLength, CrlfSequence, Dead, HeaderName, HeaderValue,
    Method, MultipartBoundary, Status, StatusCode, Url, UrlEncodedName, UrlEncodedValue, Version, Other,
}

pub fn ek(e: ParserError) -> (EK, u8) {
    use ParserError as P;
    match e {
        P::ChunkExtensionName(b) => (EK::ChunkExtensionName, b),
        P::ChunkExtensionValue(b) => (EK::ChunkExtensionValue, b),
        P::ChunkLength(b) => (EK::ChunkLength, b),
        P::CrlfSequence(b) => (EK::CrlfSequence, b),
        P::Dead => (EK::Dead, 0),
        P::HeaderName(b) => (EK::HeaderName, b),
        P::HeaderValue(b) => (EK::HeaderValue, b),
        P::Method(b) => (EK::Method, b),
        P::MultipartBoundary(b) => (EK::MultipartBoundary, b),
        P::Status(b) => (EK::Status, b),
        P::StatusCode(b) => (EK::StatusCode, b),
        P::Url(b) => (EK::Url, b),
        P::UrlEncodedName(b) => (EK::UrlEncodedName, b),
        P::UrlEncodedValue(b) => (EK::UrlEncodedValue, b),
        P::Version(b) => (EK::Version, b),
        _ => (EK::Other, 0),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Fin { More, Finished, Err(EK, u8), Panic(String), Broken }

/// Categories of the online monitors.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mon { Count, Total, Interrupt, Terminal, Order, State, Lent }

#[derive(Clone)]
pub struct Out {
    pub log: Log,
    /// (bytes consumed, position in the log) at each end-of-slice result
    pub snaps: Vec<(usize, (usize, usize))>,
    pub fin: Fin,
    pub off: usize,
    pub mons: Vec<(Mon, String)>,
    pub calls: u64,
    pub ncb: u64,
    pub callbacks_false: u64,
    pub kinds: [u64; NK],
    pub strange: ([u64; NK], [u64; NK]),
    pub raw: Option<Vec<(K, usize)>>,
    /// state() after the last call, on request
    pub state: String,
}

impl Out {
    pub fn mon(&self, which: &[Mon]) -> Option<String> {
        self.mons.iter().find(|m| which.contains(&m.0)).map(|m| format!("{:?} monitor: {}", m.0, m.1))
    }
    pub fn describe(&self) -> String {
        format!("result={:?} consumed={} events={:?}", self.fin, self.off, Evs(&self.log.evs))
    }
}

pub struct Evs<'a>(pub &'a [Ev]);
impl<'a> std::fmt::Debug for Evs<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (i, e) in self.0.iter().enumerate() {
            if i == 60 { return write!(f, " ..({} events)", self.0.len()); }
            if i > 0 { write!(f, " ")?; }
            write!(f, "{:?}", e)?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// Driver
// ------------------------------------------------------------------------------------------------

pub fn init<'a>(p: &mut Parser<'a, Rec>, c: &'a Case) {
    match c.mode {
        Mode::New | Mode::H2 => (),
        Mode::Head => p.init_head(),
        Mode::Chunked => p.init_chunked(),
        Mode::Multipart => { p.init_multipart(); p.set_boundary(&c.boundary); }
        Mode::Url => { p.init_url_encoded(); p.set_length(c.length); }
    }
}

pub fn params<'a>(p: &mut Parser<'a, Rec>, c: &'a Case) {
    match c.mode {
        Mode::Multipart => p.set_boundary(&c.boundary),
        Mode::Url => p.set_length(c.length),
        _ => (),
    }
}

pub fn handler(c: &Case) -> Rec {
    Rec::new(c.intr.clone(), c.cls.clone(), 64 + 16 * c.input.len() as u64)
}

pub type Res = Result<Success, (EK, u8)>;

/// The two parsers behind one face.
pub trait Px {
    fn feed(&mut self, h: &mut Rec, d: &[u8]) -> Res;
    fn total(&self) -> usize;
    /// what state() says: dead, finished, its name
    fn dead(&self) -> bool;
    fn finished(&self) -> bool;
    fn name(&self) -> String;
}
impl<'a> Px for Parser<'a, Rec> {
    fn feed(&mut self, h: &mut Rec, d: &[u8]) -> Res { self.resume(h, d).map_err(ek) }
    fn total(&self) -> usize { self.byte_count() }
    fn dead(&self) -> bool { self.state() == http_box::http1::ParserState::Dead }
    fn finished(&self) -> bool { self.state() == http_box::http1::ParserState::Finished }
    fn name(&self) -> String { format!("{:?}", self.state()) }
}
impl<'a> Px for http_box::http2::Parser<'a, Rec> {
    fn feed(&mut self, h: &mut Rec, d: &[u8]) -> Res {
        self.resume(h, d).map_err(|e| (if format!("{:?}", e).contains("Dead") { EK::Dead } else { EK::Other }, 0))
    }
    fn total(&self) -> usize { self.byte_count() }
    fn dead(&self) -> bool { self.state() == http_box::http2::ParserState::Dead }
    fn finished(&self) -> bool { self.state() == http_box::http2::ParserState::Finished }
    fn name(&self) -> String { format!("{:?}", self.state()) }
}

/// One exchange with the parser, split so that callers can interleave several of them.
pub struct Drv<'c> {
    c: &'c Case,
    fi: usize,
    /// sum of the fragments before `fi`
    fsum: usize,
    pos: usize,
    /// end of the current slice
    end: usize,
    empties: usize,
    pub h: Rec,
    base: usize,
    style: Rng,
    flush: bool,
    fin_early: bool, open_stop: bool,
    /// a long slice: where it starts, its bytes, how many stand in front of them
    long: (usize, Box<[u8]>, usize),
    pub done: bool,
    pub o: Out,
}

impl<'c> Drv<'c> {
    pub fn new(c: &'c Case, base: usize) -> Drv<'c> {
        let seed = if let After::Mixed(s) = c.after { s } else { 0 };
        let mut d = Drv {
            c, fi: 0, fsum: 0, pos: 0, end: 0, empties: 0, h: handler(c), base, style: Rng::new(seed), flush: false, fin_early: false, open_stop: false, long: Default::default(),
            done: false,
            o: Out { log: Log::default(), snaps: vec![], fin: Fin::More, off: 0, mons: vec![], calls: 0, ncb: 0,
                     callbacks_false: 0, kinds: [0; NK], strange: ([0; NK], [0; NK]), raw: None, state: String::new() },
        };
        d.next_frag();
        d
    }

    fn next_frag(&mut self) {
        if self.fi < self.c.frags.len() {
            self.end = (self.pos + self.c.frags[self.fi]).min(self.c.input.len());
            self.fsum += self.c.frags[self.fi];
            self.fi += 1;
        } else if self.pos < self.c.input.len() {
            self.end = self.c.input.len();
        } else {
            self.flush = true;
            self.end = self.pos;
        }
    }

    fn m(&mut self, k: Mon, s: String) { if self.o.mons.len() < 8 { self.o.mons.push((k, s)); } }

    /// One call of resume().
    pub fn step(&mut self, p: &mut dyn Px) {
        // each slice is an allocation of its own; the rest of a long one stays where it is
        let mut keep = std::mem::take(&mut self.long);
        if self.end - self.pos <= 1024 || keep.0 > self.pos || keep.0 + keep.1.len() - keep.2 != self.end {
            // half of them begin anywhere, not where allocations do
            let x = self.c.input.len() ^ self.pos.wrapping_mul(7) ^ self.o.calls as usize;
            let pad = if x & 1 == 1 { x >> 1 & 15 } else { 0 };
            let mut v = Vec::with_capacity(pad + self.end - self.pos);
            v.resize(pad, b'.');
            v.extend(&self.c.input[self.pos..self.end]);
            keep = (self.pos, v.into(), pad);
        }
        let slice = &keep.1[keep.2 + self.pos - keep.0..];
        let before = self.base + self.pos;
        self.h.begin_call();
        self.h.after_stop = false;
        let at = slice.as_ptr() as usize;
        self.h.lend = (at, at + slice.len(), at);
        let r = p.feed(&mut self.h, slice);
        let len = slice.len();
        if len > 1024 { self.long = keep; }
        self.o.calls += 1;
        let total = p.total();
        let (dead, fin) = (p.dead(), p.finished());
        // the last callback may already find the parser finished
        let early = fin && matches!(r, Ok(Success::Callback(_)));
        let over = self.fin_early && (self.h.in_call > 0 || r != Ok(Success::Finished(0)));
        self.fin_early |= early;
        // a call that only finds the end means that the callback before it was the last one
        if self.open_stop && self.h.in_call == 0 && r == Ok(Success::Finished(0)) {
            self.m(Mon::State, format!("state() was not the finished one after the last callback had interrupted, call {}", self.o.calls));
        }
        self.open_stop = !fin && matches!(r, Ok(Success::Callback(_)));
        if dead != r.is_err() || fin != (early || matches!(r, Ok(Success::Finished(_)))) || over {
            self.m(Mon::State, format!("state() is {} after {:?}, call {}", p.name(), r, self.o.calls));
        }
        if let Some(k) = self.h.overlap { self.m(Mon::Lent, format!("a piece of {:?} lies before the end of another one reported in the same call, call {}", k, self.o.calls)); }
        if total >= before && self.h.lend.2 - at > total - before { self.m(Mon::Lent, format!("bytes up to {} of the slice were reported, {} are consumed, call {}", self.h.lend.2 - at, total - before, self.o.calls)); }
        if self.h.after_stop {
            self.m(Mon::Interrupt, format!("a callback ran after one had replied false, call {}", self.o.calls));
        }
        let n = match r {
            Ok(Success::Callback(n)) | Ok(Success::Eos(n)) | Ok(Success::Finished(n)) => {
                if n > len {
                    self.m(Mon::Count, format!("{:?} exceeds the slice of {} bytes", r, len));
                    self.o.fin = Fin::Broken;
                    return self.finish();
                }
                if total != before + n {
                    self.m(Mon::Total, format!("byte_count() is {} after {:?}, expected {}", total, r, before + n));
                }
                n
            }
            Err(_) => {
                if total < before || total - before > len {
                    self.m(Mon::Total, format!("byte_count() went from {} to {} on an error in a slice of {} bytes",
                                              before, total, len));
                    self.o.fin = match r { Err((k, b)) => Fin::Err(k, b), _ => unreachable!() };
                    self.o.off = self.pos;
                    return self.finish_at();
                }
                total - before
            }
        };
        self.pos += n;
        match r {
            Ok(Success::Callback(_)) => {
                self.o.callbacks_false += 1;
                if !self.h.stopped {
                    self.m(Mon::Interrupt, format!("{:?} without a callback that replied false", r));
                }
                if self.h.in_call == 0 {
                    self.empties += 1;
                    if self.empties > 64 { self.o.fin = Fin::Panic("no progress: Callback results without callbacks".into()); return self.finish(); }
                }
                if self.flush { return; }
                let rest = match self.c.after {
                    After::Rest => true,
                    After::Next => self.pos < self.end,
                    After::Mixed(_) => self.pos < self.end || self.style.bool(),
                };
                if !rest { self.next_frag(); }
                else if let After::Mixed(_) = self.c.after {
                    // the caller may cut the rest differently or append to it
                    // not so much that copying it each time takes longer than parsing it
                    let most = if self.c.input.len() > 1 << 16 { 4096 } else { usize::MAX };
                    match self.style.below(4) {
                        0 => self.end = self.pos + self.style.below((self.end - self.pos).min(most) + 1),
                        1 => self.end = self.pos + self.style.below((self.c.input.len() - self.pos).min(most) + 1),
                        _ => (),
                    }
                    self.fix_frags();
                }
            }
            Ok(Success::Eos(n)) => {
                if n != len { self.m(Mon::Count, format!("{:?} but the slice has {} bytes", r, len)); }
                if self.h.stopped { self.m(Mon::Interrupt, format!("{:?} although a callback replied false", r)); }
                self.o.snaps.push((self.pos - n + len, self.h.log.mark()));
                if n != len {
                    // cannot go on reliably
                    self.o.fin = Fin::Broken;
                    return self.finish();
                }
                if self.flush { return self.finish(); }
                self.next_frag();
            }
            Ok(Success::Finished(_)) => {
                if self.h.stopped { self.m(Mon::Interrupt, format!("{:?} although a callback replied false", r)); }
                self.o.fin = Fin::Finished;
                self.finish();
            }
            Err(e) => {
                if self.h.stopped { self.m(Mon::Interrupt, format!("{:?} although a callback replied false", e)); }
                let (k, b) = e;
                self.o.fin = Fin::Err(k, b);
                self.finish();
            }
        }
    }

    /// Slices were cut differently: what follows is taken from the input as it is.
    fn fix_frags(&mut self) {
        // so that later slices start at `end`
        while self.fi < self.c.frags.len() && self.fsum + self.c.frags[self.fi] <= self.end { self.fsum += self.c.frags[self.fi]; self.fi += 1; }
    }

    fn finish(&mut self) { self.o.off = self.pos; self.finish_at(); }
    fn finish_at(&mut self) {
        self.done = true;
        self.o.ncb = self.h.ncb;
        self.o.kinds = self.h.kinds;
        self.o.strange = (self.h.strange, self.h.strange_len);
        self.o.raw = self.h.raw.take();
        self.o.log = std::mem::take(&mut self.h.log);
    }

    /// After the end: every further call must report the same and do nothing.
    pub fn terminal(&mut self, p: &mut dyn Px, extra: &[&[u8]]) {
        let dead = match self.o.fin { Fin::Finished => false, Fin::Err(..) => true, _ => return };
        let ncb = self.h.ncb;
        let total = p.total();
        for x in extra {
            let slice: Box<[u8]> = (*x).into();
            let r = p.feed(&mut self.h, &slice);
            let good = if dead { matches!(r, Err((EK::Dead, _))) } else { r == Ok(Success::Finished(0)) };
            if !good {
                self.m(Mon::Terminal, format!("{} parser returned {:?} for \"{}\"",
                       if dead { "a failed" } else { "a finished" }, r, show(x)));
            }
            if self.h.ncb != ncb {
                self.m(Mon::Terminal, format!("callback from a {} parser for \"{}\"",
                       if dead { "failed" } else { "finished" }, show(x)));
            }
            if p.dead() != dead || p.finished() == dead {
                self.m(Mon::State, format!("state() is {} after a further call on a {} parser", p.name(), if dead { "failed" } else { "finished" }));
            }
            if p.total() != total {
                self.m(Mon::Terminal, format!("byte_count() went from {} to {} for \"{}\" on a {} parser",
                       total, p.total(), show(x), if dead { "failed" } else { "finished" }));
            }
            if !self.o.mons.is_empty() { return; }
        }
    }
}

/// Drive one case on an initialised parser.
pub fn drive(p: &mut dyn Px, c: &Case, extra: &[&[u8]], raw: bool) -> Out {
    let mut d = Drv::new(c, p.total());
    if raw { d.h.raw = Some(vec![]); }
    while !d.done { d.step(p); }
    if raw { d.o.state = p.name(); }
    d.terminal(p, extra);
    d.o
}

/// Drive one case on a new parser, panics become outcomes.
pub fn run(c: &Case) -> Out { run_x(c, &[], false) }

pub fn run_x(c: &Case, extra: &[&[u8]], raw: bool) -> Out {
    match crate::engine::catch(|| {
        if c.mode == Mode::H2 { return drive(&mut http_box::http2::Parser::new(), c, extra, raw); }
        let mut p = Parser::new();
        init(&mut p, c);
        drive(&mut p, c, extra, raw)
    }) {
        Ok(o) => o,
        Err(m) => panicked(m),
    }
}

pub fn panicked(m: String) -> Out {
    Out { log: Log::default(), snaps: vec![], fin: Fin::Panic(m), off: 0, mons: vec![], calls: 0, ncb: 0,
          callbacks_false: 0, kinds: [0; NK], strange: ([0; NK], [0; NK]), raw: None, state: String::new() }
}

// ------------------------------------------------------------------------------------------------
// Reference model: one byte at a time, every event as early as the bytes determine it
// ------------------------------------------------------------------------------------------------

pub fn is_token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
/// unquoted field text: HTAB, SP, visible ASCII except the quote, obs-text
pub fn is_field(b: u8) -> bool { b == 9 || b >= 0x20 && b != 0x7F && b != b'"' }
/// quoted field text: also obs-text, but neither quote nor backslash
pub fn is_qfield(b: u8) -> bool { b == 9 || (b >= 0x20 && b != 0x7F && b != b'"' && b != b'\\') }
pub fn is_vis(b: u8) -> bool { (0x21..=0x7E).contains(&b) }
fn is_esc(b: u8) -> bool { (0x20..=0x7A).contains(&b) }
fn hexval(b: u8) -> Option<u8> {
    match b { b'0'..=b'9' => Some(b - b'0'), b'a'..=b'f' => Some(b - b'a' + 10), b'A'..=b'F' => Some(b - b'A' + 10), _ => None }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Strip, Detect(u8), Method, Url1, Url, Http(u8), Ver(bool, u8, u8), StCode(u8), St1, St, InitLf,
    HStart, HName1, HName, HStrip, HVal, HQuo, HEsc, HLf1, HLf2,
    CLen(u8), CLf, XStripN, XName, XStripV, XVal, XQuo, XEsc, LastLf, CData, CCr, CLf2,
    B1, B2, BMatch(usize), BEnd, BEnd2, Data, DataN, DataNCr, DataNLf,
    UStart, UName, UHex1(bool), UHex2(bool), UVal, End,
}

pub struct Model<'c> {
    c: &'c Case,
    st: S,
    pub log: Log,
    pub fin: Fin,
    pub off: usize,
    marks: Vec<(usize, usize)>,
    num: [u16; 2],
    len: u64,
    code: u16,
    field_seen: bool,
    strict_boundary: bool,
    held: Vec<u8>,
    cls_i: usize,
    left: u64,
    hex: u8,
    /// kinds of states visited, for coverage
    pub visited: u64,
}

impl<'c> Model<'c> {
    pub fn run(c: &'c Case) -> Model<'c> {
        let st = match c.mode {
            Mode::New => S::Detect(0), Mode::Head => S::Strip, Mode::Chunked => S::CLen(0),
            Mode::Multipart => S::B1, Mode::Url => S::UStart, Mode::H2 => unreachable!(),
        };
        let mut m = Model { c, st, log: Log::default(), fin: Fin::More, off: 0, marks: vec![], num: [0; 2], len: 0,
                            code: 0, field_seen: false, strict_boundary: true, held: vec![],
                            cls_i: 0, left: c.length as u64, hex: 0, visited: 0 };
        if c.mode == Mode::Url && c.length == 0 { m.e(K::BodyFin); m.fin = Fin::Finished; }
        m.marks.push(m.log.mark());
        let input = &c.input;
        while m.fin == Fin::More && m.off < input.len() {
            let b = input[m.off];
            m.off += 1;
            m.byte(b);
            m.marks.push(m.log.mark());
        }
        m
    }

    /// Expected position in the log after `off` bytes.
    pub fn mark_at(&self, off: usize) -> (usize, usize) { self.marks[off.min(self.marks.len() - 1)] }

    fn e(&mut self, k: K) { self.log.ev(k, [0; 4]); }
    fn e1(&mut self, k: K, a: u64) { self.log.ev(k, [a, 0, 0, 0]); }
    fn b(&mut self, k: K, b: u8) { self.log.byte(k, b); }
    fn err(&mut self, k: EK, b: u8) { self.fin = Fin::Err(k, b); }
    fn done(&mut self) { self.fin = Fin::Finished; self.st = S::End; }

    fn headers_done(&mut self) {
        self.e(K::Headers);
        self.field_seen = false;
        match self.c.mode {
            Mode::Chunked => { self.e(K::BodyFin); self.done(); }
            Mode::Multipart => {
                let cl = if self.c.cls.is_empty() { None } else { self.c.cls[self.cls_i % self.c.cls.len()] };
                self.cls_i += 1;
                match cl {
                    Some(n) => { self.len = n as u64; self.st = if n == 0 { S::DataNCr } else { S::DataN }; }
                    None => { self.st = S::Data; }
                }
            }
            _ => self.done(),
        }
    }

    fn begin_boundary(&mut self, strict: bool) { self.strict_boundary = strict; self.held.clear(); self.st = S::B1; }

    /// a delimiter candidate turned out to be data
    fn release(&mut self, b: u8) {
        let held = std::mem::take(&mut self.held);
        for x in held { self.b(K::MpData, x); }
        self.st = S::Data;
        self.byte(b);
    }

    fn url_eat(&mut self) {
        // called after each byte of a URL encoded body
        self.left -= 1;
        if self.fin != Fin::More || self.left > 0 { return; }
        match self.st {
            S::UHex1(n) | S::UHex2(n) => {
                let b = self.c.input[self.off - 1];
                self.err(if n { EK::UrlEncodedName } else { EK::UrlEncodedValue }, b);
            }
            _ => { self.e(K::BodyFin); self.done(); }
        }
    }

    fn byte(&mut self, b: u8) {
        self.visited |= 1 << (disc(self.st) & 63);
        match self.st {
            S::Strip => if !b"\r\n\t ".contains(&b) { self.st = S::Detect(0); self.byte(b); },
            S::Detect(i) => {
                if b == b"HTTP/"[i as usize] {
                    self.st = if i == 4 { S::Ver(true, 0, 0) } else { S::Detect(i + 1) };
                    self.num = [0; 2];
                } else if i == 0 && !b.is_ascii_uppercase() {
                    self.err(EK::Method, b);
                } else {
                    for x in &b"HTTP"[..i as usize] { self.b(K::Method, *x); }
                    self.st = S::Method;
                    self.byte(b);
                }
            }
            S::Method => match b {
                b' ' => self.st = S::Url1,
                b'A'..=b'Z' => self.b(K::Method, b),
                _ => self.err(EK::Method, b),
            },
            S::Url1 | S::Url => {
                if is_vis(b) { self.b(K::Url, b); self.st = S::Url; }
                else if b == b' ' && self.st == S::Url { self.st = S::Http(0); self.num = [0; 2]; }
                else { self.err(EK::Url, b); }
            }
            S::Http(i) => {
                if b != b"HTTP/"[i as usize] { self.err(EK::Version, b); }
                else { self.st = if i == 4 { S::Ver(false, 0, 0) } else { S::Http(i + 1) }; }
            }
            S::Ver(resp, part, digits) => {
                let end = if resp { b' ' } else { b'\r' };
                if b.is_ascii_digit() && digits < 3 {
                    let n = &mut self.num[part as usize];
                    *n = *n * 10 + (b - b'0') as u16;
                    self.st = S::Ver(resp, part, digits + 1);
                } else if part == 0 && b == b'.' && digits > 0 {
                    self.st = S::Ver(resp, 1, 0);
                } else if part == 1 && b == end && digits > 0 {
                    self.log.ev(K::Version, [self.num[0] as u64, self.num[1] as u64, 0, 0]);
                    if resp { self.st = S::StCode(0); self.code = 0; }
                    else { self.e(K::Initial); self.st = S::InitLf; }
                } else { self.err(EK::Version, b); }
            }
            S::StCode(i) => {
                if i < 3 && b.is_ascii_digit() { self.code = self.code * 10 + (b - b'0') as u16; self.st = S::StCode(i + 1); }
                else if i == 3 && b == b' ' { self.e1(K::StatusCode, self.code as u64); self.st = S::St1; }
                else { self.err(EK::StatusCode, b); }
            }
            S::St1 | S::St => {
                if b == b'\r' { self.e(K::Initial); self.st = S::InitLf; }
                else if b >= 0x20 && b != 0x7F { self.b(K::Status, b); self.st = S::St; }
                else { self.err(EK::Status, b); }
            }
            S::InitLf => if b == b'\n' { self.field_seen = false; self.st = S::HStart; } else { self.err(EK::CrlfSequence, b); },
            S::HStart => match b {
                b'\r' => self.st = S::HLf2,
                b' ' | b'\t' => if self.field_seen { self.st = S::HVal; } else { self.err(EK::HeaderName, b); },
                _ => { self.field_seen = true; self.st = S::HName1; self.byte(b); }
            },
            S::HName1 | S::HName => {
                if is_token(b) { self.b(K::HName, b.to_ascii_lowercase()); self.st = S::HName; }
                else if b == b':' && self.st == S::HName { self.st = S::HStrip; }
                else { self.err(EK::HeaderName, b); }
            }
            S::HStrip => match b {
                b' ' | b'\t' => (),
                b'\r' => { self.log.empty(K::HVal); self.st = S::HLf1; }
                _ => if is_vis(b) || b >= 0x80 { self.st = S::HVal; self.byte(b); } else { self.err(EK::HeaderValue, b); },
            },
            S::HVal => match b {
                b'\r' => self.st = S::HLf1,
                b'"' => { self.b(K::HVal, b); self.st = S::HQuo; }
                _ => if is_field(b) { self.b(K::HVal, b); } else { self.err(EK::HeaderValue, b); },
            },
            S::HQuo => match b {
                b'"' => { self.b(K::HVal, b); self.st = S::HVal; }
                b'\\' => { self.b(K::HVal, b); self.st = S::HEsc; }
                _ => if is_qfield(b) { self.b(K::HVal, b); } else { self.err(EK::HeaderValue, b); },
            },
            S::HEsc => if is_esc(b) { self.b(K::HVal, b); self.st = S::HQuo; } else { self.err(EK::HeaderValue, b); },
            S::HLf1 => if b == b'\n' { self.st = S::HStart; } else { self.err(EK::CrlfSequence, b); },
            S::HLf2 => if b == b'\n' { self.headers_done(); } else { self.err(EK::CrlfSequence, b); },

            S::CLen(i) => {
                if let (Some(v), true) = (hexval(b), i < 8) {
                    if i == 0 { self.len = 0; self.e(K::ChunkBegin); }
                    self.len = self.len * 16 + v as u64;
                    self.st = S::CLen(i + 1);
                } else if i > 0 && b == b'\r' {
                    self.e1(K::ChunkLen, self.len);
                    if self.len == 0 { self.st = S::LastLf; } else { self.e(K::ExtsFin); self.st = S::CLf; }
                } else if i > 0 && b == b';' {
                    self.e1(K::ChunkLen, self.len);
                    self.st = S::XStripN;
                } else { self.err(EK::ChunkLength, b); }
            }
            S::LastLf => if b == b'\n' { self.field_seen = false; self.st = S::HStart; } else { self.err(EK::CrlfSequence, b); },
            S::CLf => if b == b'\n' {
                if self.len == 0 { self.field_seen = false; self.st = S::HStart; } else { self.st = S::CData; }
            } else { self.err(EK::CrlfSequence, b); },
            S::XStripN => match b {
                b' ' | b'\t' => (),
                _ => if is_token(b) { self.st = S::XName; self.byte(b); } else { self.err(EK::ChunkExtensionName, b); },
            },
            S::XName => match b {
                b'=' => self.st = S::XStripV,
                b';' => { self.e(K::ExtFin); self.st = S::XStripN; }
                b'\r' => { self.e(K::ExtFin); self.e(K::ExtsFin); self.st = S::CLf; }
                _ => if is_token(b) { self.b(K::ExtName, b.to_ascii_lowercase()); } else { self.err(EK::ChunkExtensionName, b); },
            },
            S::XStripV => match b {
                b' ' | b'\t' => (),
                _ => if is_vis(b) && b != b';' { self.st = S::XVal; self.byte(b); } else { self.err(EK::ChunkExtensionValue, b); },
            },
            S::XVal => match b {
                b';' => { self.e(K::ExtFin); self.st = S::XStripN; }
                b'\r' => { self.e(K::ExtFin); self.e(K::ExtsFin); self.st = S::CLf; }
                b'"' => self.st = S::XQuo,
                _ => if is_field(b) { self.b(K::ExtVal, b); } else { self.err(EK::ChunkExtensionValue, b); },
            },
            S::XQuo => match b {
                b'"' => self.st = S::XVal,
                b'\\' => self.st = S::XEsc,
                _ => if is_qfield(b) { self.b(K::ExtVal, b); } else { self.err(EK::ChunkExtensionValue, b); },
            },
            S::XEsc => if is_esc(b) { self.b(K::ExtVal, b); self.st = S::XQuo; } else { self.err(EK::ChunkExtensionValue, b); },
            S::CData => {
                self.b(K::ChunkData, b);
                self.len -= 1;
                if self.len == 0 { self.st = S::CCr; }
            }
            S::CCr => if b == b'\r' { self.st = S::CLf2; } else { self.err(EK::CrlfSequence, b); },
            S::CLf2 => if b == b'\n' { self.st = S::CLen(0); } else { self.err(EK::CrlfSequence, b); },

            S::B1 | S::B2 => {
                if b == b'-' {
                    self.held.push(b);
                    self.st = if self.st == S::B1 { S::B2 } else if self.c.boundary.is_empty() { S::BEnd } else { S::BMatch(0) };
                } else if self.strict_boundary { self.err(EK::MultipartBoundary, b); }
                else { self.release(b); }
            }
            S::BMatch(i) => {
                if b == self.c.boundary[i] {
                    self.held.push(b);
                    self.st = if i + 1 == self.c.boundary.len() { self.held.clear(); S::BEnd } else { S::BMatch(i + 1) };
                } else if self.strict_boundary { self.err(EK::MultipartBoundary, b); }
                else { self.release(b); }
            }
            S::BEnd => match b {
                b'\r' => { self.e(K::MpBegin); self.st = S::InitLf; }
                b'-' => self.st = S::BEnd2,
                _ => self.err(EK::MultipartBoundary, b),
            },
            S::BEnd2 => if b == b'-' { self.e(K::BodyFin); self.done(); } else { self.err(EK::MultipartBoundary, b); },
            S::Data => {
                // `held` is a prefix of the delimiter
                if self.held.is_empty() {
                    if b == b'\r' { self.held.push(b); } else { self.b(K::MpData, b); }
                } else if b == b'\n' {
                    self.begin_boundary(false);
                    self.held.extend_from_slice(b"\r\n");
                } else { self.release(b); }
            }
            S::DataN => {
                self.b(K::MpData, b);
                self.len -= 1;
                if self.len == 0 { self.st = S::DataNCr; }
            }
            S::DataNCr => if b == b'\r' { self.st = S::DataNLf; } else { self.err(EK::MultipartBoundary, b); },
            S::DataNLf => if b == b'\n' { self.begin_boundary(true); } else { self.err(EK::MultipartBoundary, b); },

            S::UStart => { self.e(K::UrlBegin); self.st = S::UName; self.byte(b); return; }
            S::UName | S::UVal => {
                let name = self.st == S::UName;
                let k = if name { K::UName } else { K::UVal };
                match b {
                    b'%' => self.st = S::UHex1(name),
                    b'+' => self.b(k, b' '),
                    b'&' | b';' => self.st = S::UStart,
                    b'=' if name => self.st = S::UVal,
                    _ => if is_vis(b) { self.b(k, b); }
                         else { self.err(if name { EK::UrlEncodedName } else { EK::UrlEncodedValue }, b); }
                }
                self.url_eat();
            }
            S::UHex1(name) | S::UHex2(name) => {
                match hexval(b) {
                    Some(v) => if let S::UHex1(_) = self.st { self.hex = v << 4; self.st = S::UHex2(name); }
                    else {
                        let x = self.hex | v;
                        self.b(if name { K::UName } else { K::UVal }, x);
                        self.st = if name { S::UName } else { S::UVal };
                    },
                    None => self.err(if name { EK::UrlEncodedName } else { EK::UrlEncodedValue }, b),
                }
                self.url_eat();
            }
            S::End => unreachable!(),
        }
    }
}

fn disc(s: S) -> u32 {
    use S::*;
    match s {
        Strip => 0, Detect(_) => 1, Method => 2, Url1 => 3, Url => 4, Http(_) => 5, Ver(false, ..) => 6, Ver(true, ..) => 7,
        StCode(_) => 8, St1 => 9, St => 10, InitLf => 11, HStart => 12, HName1 => 13, HName => 14, HStrip => 15, HVal => 16,
        HQuo => 17, HEsc => 18, HLf1 => 19, HLf2 => 20, CLen(_) => 21, CLf => 22, XStripN => 23, XName => 24, XStripV => 25,
        XVal => 26, XQuo => 27, XEsc => 28, LastLf => 29, CData => 30, CCr => 31, CLf2 => 32, B1 => 33, B2 => 34,
        BMatch(_) => 35, BEnd => 36, BEnd2 => 37, Data => 38, DataN => 39, DataNCr => 40, DataNLf => 41, UStart => 42,
        UName => 43, UHex1(_) => 44, UHex2(_) => 45, UVal => 46, End => 47,
    }
}

// ------------------------------------------------------------------------------------------------
// Comparisons
// ------------------------------------------------------------------------------------------------

/// Events of a run against the expected ones. After an error the collected bytes of the malformed
/// element itself need not have been delivered.
pub fn cmp_events(got: &Log, want: &Log, err: bool) -> Option<String> {
    let (g, w) = (&got.evs, &want.evs);
    let n = g.len().min(w.len());
    for i in 0..n {
        if g[i] != w[i] {
            if err && i + 1 == g.len() && i + 1 == w.len() && g[i].k == w[i].k && g[i].k.is_data()
                && w[i].d.starts_with(&g[i].d) { return None; }
            return Some(format!("event {} is {:?}, expected {:?}", i, g[i], w[i]));
        }
    }
    if g.len() > n { return Some(format!("unexpected event {} {:?}", n, g[n])); }
    if w.len() > n {
        if err && w.len() == n + 1 && w[n].k.is_data() { return None; }
        return Some(format!("missing event {} {:?}", n, w[n]));
    }
    None
}

/// Two runs of the same input, which may differ in slices and interruptions only.
pub fn cmp_runs(a: &Out, b: &Out) -> Option<String> {
    if a.fin != b.fin { return Some(format!("results differ: {:?} and {:?}", a.fin, b.fin)); }
    if let Fin::Panic(_) = a.fin { return None; }
    if a.off != b.off { return Some(format!("consumed {} and {} bytes", a.off, b.off)); }
    let err = matches!(a.fin, Fin::Err(..));
    // after an error either may have delivered more of the malformed element
    if !err { return cmp_events(&a.log, &b.log, false).map(|s| format!("events differ: {}", s)); }
    match (cmp_events(&a.log, &b.log, true), cmp_events(&b.log, &a.log, true)) {
        (Some(x), Some(_)) => Some(format!("events differ: {}", x)),
        _ => None,
    }
}

/// A run against the model.
pub fn cmp_model(o: &Out, m: &Model) -> Option<String> {
    if o.fin != m.fin { return Some(format!("result is {:?} after {} bytes, expected {:?} after {}", o.fin, o.off, m.fin, m.off)); }
    if o.off != m.off { return Some(format!("{} bytes consumed, expected {}", o.off, m.off)); }
    cmp_events(&o.log, &m.log, matches!(m.fin, Fin::Err(..)))
}

pub fn cmp_snaps(o: &Out, m: &Model) -> Option<String> {
    for (off, mark) in &o.snaps {
        let want = m.mark_at(*off);
        if *mark != want {
            return Some(format!("after {} bytes {} events (last one {} bytes) were delivered, the bytes determine {} (last one {} bytes)",
                                off, mark.0, mark.1, want.0, want.1));
        }
    }
    None
}
