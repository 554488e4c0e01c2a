//! Events observed at the handler boundary, the recording handlers and the interruption plans.

use crate::rng::mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    // HTTP/1
    Method, Url, Version, StatusCode, Status, Initial, HName, HVal, Headers,
    ChunkBegin, ChunkLen, ExtName, ExtVal, ExtFin, ExtsFin, ChunkData,
    MpBegin, MpData, UrlBegin, UName, UVal, BodyFin,
    // HTTP/2
    Frame, Data, DataEnd, GoAway, Debug, DebugEnd, HeadersF, Frag, FragEnd, Ping, PingEnd,
    Priority, PushPromise, Rst, Setting, Unsup, UnsupEnd, Window,
}

pub const NK: usize = K::Window as usize + 1;

impl K {
    pub fn of(i: usize) -> K { assert!(i < NK); unsafe { std::mem::transmute(i as u8) } }
    /// Data kinds may be delivered in several pieces, which are joined by the recorder.
    pub fn is_data(self) -> bool {
        use K::*;
        matches!(self, Method | Url | Status | HName | HVal | ExtName | ExtVal | ChunkData | MpData
            | UName | UVal | Data | Debug | Frag | Ping | Unsup)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Ev { pub k: K, pub a: [u64; 4], pub d: Vec<u8> }

impl std::fmt::Debug for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.k.is_data() { write!(f, "{:?}({:?})", self.k, show(&self.d)) }
        else { write!(f, "{:?}{:?}", self.k, self.a) }
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &x in b.iter().take(400) {
        match x {
            b'\r' => s.push_str("\\r"), b'\n' => s.push_str("\\n"), b'\t' => s.push_str("\\t"),
            b'\\' => s.push_str("\\\\"), b'"' => s.push_str("\\\""),
            0x20..=0x7E => s.push(x as char),
            _ => s.push_str(&format!("\\x{:02x}", x)),
        }
    }
    if b.len() > 400 { s.push_str(&format!("...({} bytes)", b.len())); }
    s
}

/// An event list in which adjacent pieces of the same item are joined.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Log { pub evs: Vec<Ev> }

impl Log {
    pub fn ev(&mut self, k: K, a: [u64; 4]) { self.evs.push(Ev { k, a, d: Vec::new() }); }
    pub fn data(&mut self, k: K, d: &[u8]) {
        if d.is_empty() { return; }
        if let Some(e) = self.evs.last_mut() { if e.k == k { e.d.extend_from_slice(d); return; } }
        self.evs.push(Ev { k, a: [0; 4], d: d.to_vec() });
    }
    /// An item without bytes, which still is an item.
    pub fn empty(&mut self, k: K) {
        if self.evs.last().map(|e| e.k) != Some(k) { self.evs.push(Ev { k, a: [0; 4], d: Vec::new() }); }
    }
    pub fn byte(&mut self, k: K, b: u8) { self.data(k, &[b]); }
    /// Position in the log: number of events and bytes in the last one.
    pub fn mark(&self) -> (usize, usize) {
        (self.evs.len(), self.evs.last().map(|e| e.d.len()).unwrap_or(0))
    }
}

/// Which callbacks are answered with `false`.
#[derive(Clone, Debug, PartialEq)]
pub enum Intr { None, All, Only(u64), Prob(u64, u8), Upto(u64) }

impl Intr {
    pub fn hit(&self, n: u64) -> bool {
        match *self {
            Intr::None => false,
            Intr::All => true,
            Intr::Only(x) => n == x,
            Intr::Prob(s, p) => (mix(s ^ n.wrapping_mul(0x1234_5677)) & 0xFF) < p as u64,
            Intr::Upto(x) => n < x,
        }
    }
}

/// Recording handler with the online monitors that need the raw callbacks.
pub struct Rec {
    pub log: Log,
    pub intr: Intr,
    pub cls: Vec<Option<usize>>,
    pub cls_i: usize,
    pub ncb: u64,
    pub budget: u64,
    /// callbacks seen during the current resume() call
    pub in_call: u64,
    /// a callback of the current call returned false
    pub stopped: bool,
    /// a callback ran after another one had returned false in the same call
    pub after_stop: bool,
    /// bytes delivered in data callbacks
    pub bytes: u64,
    /// do not store data, only count it (a[0] is the total of the joined item)
    pub count_only: bool,
    pub kinds: [u64; NK],
    /// largest single data slice
    pub raw: Option<Vec<(K, usize)>>,
    /// addresses of the slice of the current call, end of the last piece of it that was handed back
    pub lend: (usize, usize, usize),
    /// pieces of each kind that were not part of the slice
    pub strange: [u64; NK],
    /// the longest of them
    pub strange_len: [u64; NK],
    /// a piece that begins before the end of an earlier one of the same call
    pub overlap: Option<K>,
    /// what else the handler does in each callback
    pub also: bool,
}

thread_local! {
    /// what handlers with `also` do in a callback; the innermost is last
    pub static ALSO: std::cell::RefCell<Vec<*mut dyn FnMut()>> = std::cell::RefCell::new(vec![]);
}
fn also() {
    let f = ALSO.with(|a| a.borrow_mut().pop());
    // they outlive the run that they were put there for
    if let Some(f) = f { unsafe { (*f)() } ALSO.with(|a| a.borrow_mut().push(f)); }
}

impl Rec {
    pub fn new(intr: Intr, cls: Vec<Option<usize>>, budget: u64) -> Rec {
        Rec { log: Log::default(), intr, cls, cls_i: 0, ncb: 0, budget, in_call: 0, stopped: false,
              after_stop: false, bytes: 0, count_only: false, kinds: [0; NK], raw: None, lend: (0, 0, 0), strange: [0; NK], strange_len: [0; NK], overlap: None, also: false }
    }
    pub fn begin_call(&mut self) { self.in_call = 0; self.stopped = false; }

    fn reply(&mut self) -> bool {
        let n = self.ncb;
        self.ncb += 1;
        self.in_call += 1;
        if self.stopped { self.after_stop = true; }
        if self.ncb > self.budget { panic!("VH-BUDGET: more than {} callbacks", self.budget); }
        if self.also { also(); }
        let r = !self.intr.hit(n);
        if !r { self.stopped = true; }
        r
    }
    pub fn e(&mut self, k: K, a: [u64; 4]) -> bool {
        self.kinds[k as usize] += 1;
        if let Some(r) = self.raw.as_mut() { r.push((k, 0)); }
        self.log.ev(k, a);
        self.reply()
    }
    pub fn d(&mut self, k: K, d: &[u8]) -> bool {
        self.put(k, d);
        self.reply()
    }
    fn put(&mut self, k: K, d: &[u8]) {
        self.kinds[k as usize] += 1;
        self.bytes += d.len() as u64;
        if !d.is_empty() {
            let a = d.as_ptr() as usize;
            if a >= self.lend.0 && a + d.len() <= self.lend.1 {
                if a < self.lend.2 { self.overlap = Some(k); }
                self.lend.2 = a + d.len();
            } else {
                self.strange[k as usize] += 1;
                self.strange_len[k as usize] = self.strange_len[k as usize].max(d.len() as u64);
            }
        }
        if let Some(r) = self.raw.as_mut() { r.push((k, d.len())); }
        if self.count_only {
            // every delivered byte is read, so that memory monitors see it
            std::hint::black_box(d.iter().fold(0u8, |x, b| x ^ *b));
            match self.log.evs.last_mut() {
                Some(e) if e.k == k => e.a[0] += d.len() as u64,
                _ => if !d.is_empty() { self.log.ev(k, [d.len() as u64, 0, 0, 0]); }
            }
        } else if d.is_empty() && k == K::HVal {
            self.log.empty(k);
        } else {
            self.log.data(k, d);
        }
    }
    pub fn df(&mut self, k: K, end: K, d: &[u8], fin: bool) -> bool {
        self.put(k, d);
        if fin { self.kinds[end as usize] += 1; self.log.ev(end, [0; 4]); }
        self.reply()
    }
}

impl http_box::http1::HttpHandler for Rec {
    fn content_length(&mut self) -> Option<usize> {
        if self.cls.is_empty() { return None; }
        let r = self.cls[self.cls_i % self.cls.len()];
        self.cls_i += 1;
        r
    }
    fn on_body_finished(&mut self) -> bool { self.e(K::BodyFin, [0; 4]) }
    fn on_chunk_begin(&mut self) -> bool { self.e(K::ChunkBegin, [0; 4]) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.d(K::ChunkData, d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.e(K::ExtFin, [0; 4]) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.d(K::ExtName, d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.d(K::ExtVal, d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.e(K::ExtsFin, [0; 4]) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.e(K::ChunkLen, [n as u64, 0, 0, 0]) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.d(K::HName, d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.d(K::HVal, d) }
    fn on_headers_finished(&mut self) -> bool { self.e(K::Headers, [0; 4]) }
    fn on_initial_finished(&mut self) -> bool { self.e(K::Initial, [0; 4]) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.d(K::Method, d) }
    fn on_multipart_begin(&mut self) -> bool { self.e(K::MpBegin, [0; 4]) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.d(K::MpData, d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.d(K::Status, d) }
    fn on_status_code(&mut self, c: u16) -> bool { self.e(K::StatusCode, [c as u64, 0, 0, 0]) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.d(K::Url, d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.e(K::UrlBegin, [0; 4]) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.d(K::UName, d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.d(K::UVal, d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.e(K::Version, [a as u64, b as u64, 0, 0]) }
}

impl http_box::http2::HttpHandler for Rec {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.df(K::Data, K::DataEnd, d, f) }
    fn on_frame_format(&mut self, l: u32, t: u8, fl: u8, s: u32) -> bool {
        self.e(K::Frame, [l as u64, t as u64, fl as u64, s as u64])
    }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.e(K::GoAway, [s as u64, e as u64, 0, 0]) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.df(K::Debug, K::DebugEnd, d, f) }
    fn on_headers(&mut self, x: bool, s: u32, w: u8) -> bool {
        self.e(K::HeadersF, [x as u64, s as u64, w as u64, 0])
    }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.df(K::Frag, K::FragEnd, d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.df(K::Ping, K::PingEnd, d, f) }
    fn on_priority(&mut self, x: bool, s: u32, w: u8) -> bool {
        self.e(K::Priority, [x as u64, s as u64, w as u64, 0])
    }
    fn on_push_promise(&mut self, s: u32) -> bool { self.e(K::PushPromise, [s as u64, 0, 0, 0]) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.e(K::Rst, [e as u64, 0, 0, 0]) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.e(K::Setting, [i as u64, v as u64, 0, 0]) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.df(K::Unsup, K::UnsupEnd, d, f) }
    fn on_window_update(&mut self, n: u32) -> bool { self.e(K::Window, [n as u64, 0, 0, 0]) }
}
