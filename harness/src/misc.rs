//! Protocol automaton, memory accounting, work accounting, guarded memory, HTTP/2 code tables.

use crate::ev::*;
use crate::h1::{Case, EK, Fin, Mode, Out};
use std::cell::Cell;

// ------------------------------------------------------------------------------------------------
// C22: order of the callbacks
// ------------------------------------------------------------------------------------------------

/// Checks the joined events of an HTTP/1 run against the documented order.
pub fn protocol(mode: Mode, o: &Out) -> Option<String> {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum P { Start, Method, Url, Version, Code, Status, Head, Name, Val, CBegin, CLen, XName, XVal, XFin, Exts, CData, MHead, MData, MBegin, UBegin, UName, UVal, End }
    use P::*;
    let mut st = Start;
    let mut resp = false;
    let mut need = 0u64;
    let mut exts = false;
    let mut finished = 0;
    // in a chunked body: the last chunk was announced
    let mut last = false;
    let mut nchunk = 0;
    for (i, e) in o.log.evs.iter().enumerate() {
        if finished > 0 { return Some(format!("event {} {:?} follows the end of the message", i, e)); }
        let n = match (mode, st, e.k) {
            (Mode::New | Mode::Head, Start, K::Method) => Method,
            (_, Method, K::Url) => Url,
            (_, Url, K::Version) => Version,
            (Mode::New | Mode::Head, Start, K::Version) => { resp = true; Version }
            (_, Version, K::StatusCode) if resp => Code,
            (_, Code, K::Status) => Status,
            (_, Version, K::Initial) if !resp => Head,
            (_, Code | Status, K::Initial) => Head,
            (Mode::New | Mode::Head, Head | Val, K::HName) => Name,
            (_, Name, K::HVal) => Val,
            (Mode::New | Mode::Head, Head | Val, K::Headers) => { finished += 1; End }

            (Mode::Chunked, Start | CData, K::ChunkBegin) if need == 0 => { exts = false; CBegin }
            (Mode::Chunked, CBegin, K::ChunkLen) => { need = e.a[0]; last = need == 0; nchunk += 1; CLen }
            (Mode::Chunked, CLen | XFin, K::ExtName) => { exts = true; XName }
            (Mode::Chunked, XName, K::ExtVal) => XVal,
            (Mode::Chunked, XName | XVal, K::ExtFin) => XFin,
            (Mode::Chunked, CLen | XFin, K::ExtsFin) => Exts,
            (Mode::Chunked, Exts, K::ChunkData) | (Mode::Chunked, CLen, K::ChunkData) if !exts || st == Exts => {
                if e.d.len() as u64 > need { return Some(format!("chunk {} of {} bytes got {}", nchunk, need, e.d.len())); }
                need -= e.d.len() as u64;
                if need > 0 && (i + 1 < o.log.evs.len() || o.fin == Fin::Finished) { return Some(format!("{} bytes of chunk {} were not delivered", need, nchunk)); }
                CData
            }
            (Mode::Chunked, Exts | Val, K::HName) if last => Name,
            (Mode::Chunked, CLen, K::HName) if last && !exts => Name,
            (Mode::Chunked, Exts | Val, K::Headers) if last => MHead,
            (Mode::Chunked, CLen, K::Headers) if last && !exts => MHead,
            (Mode::Chunked, MHead, K::BodyFin) => { finished += 1; End }

            (Mode::Multipart, Start | MHead | MData, K::MpBegin) => MBegin,
            (Mode::Multipart, MBegin | Val, K::HName) => Name,
            (Mode::Multipart, MBegin | Val, K::Headers) => MHead,
            (Mode::Multipart, MHead, K::MpData) => MData,
            (Mode::Multipart, Start | MHead | MData, K::BodyFin) => { finished += 1; End }

            (Mode::Url, Start | UBegin | UName | UVal, K::UrlBegin) => UBegin,
            (Mode::Url, UBegin, K::UName) => UName,
            (Mode::Url, UBegin | UName, K::UVal) => UVal,
            (Mode::Url, Start | UBegin | UName | UVal, K::BodyFin) => { finished += 1; End }
            _ => return Some(format!("event {} {:?} in state {:?}", i, e, st)),
        };
        st = n;
    }
    match o.fin {
        Fin::Finished if finished != 1 => Some(format!("parsing finished with {} finish notifications", finished)),
        Fin::Err(..) if finished != 0 => Some("a finish notification was followed by an error".into()),
        Fin::More if finished != 0 => Some("more data is expected after the finish notification".into()),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------------
// C23, C27: a handler without any cost of its own, and an accounting allocator
// ------------------------------------------------------------------------------------------------

pub struct Cnt { pub n: u64, pub bytes: u64, pub every: u64, pub cl: Option<usize> }
impl Cnt {
    pub fn new() -> Cnt { Cnt { n: 0, bytes: 0, every: 0, cl: None } }
    #[inline(always)]
    fn c(&mut self, d: usize) -> bool { self.n += 1; self.bytes += d as u64; self.every == 0 || self.n % self.every != 0 }
}
impl http_box::http1::HttpHandler for Cnt {
    fn content_length(&mut self) -> Option<usize> { self.cl }
    fn on_body_finished(&mut self) -> bool { self.c(0) }
    fn on_chunk_begin(&mut self) -> bool { self.c(0) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.c(0) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.c(0) }
    fn on_chunk_length(&mut self, _: usize) -> bool { self.c(0) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_headers_finished(&mut self) -> bool { self.c(0) }
    fn on_initial_finished(&mut self) -> bool { self.c(0) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_multipart_begin(&mut self) -> bool { self.c(0) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_status_code(&mut self, _: u16) -> bool { self.c(0) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_url_encoded_begin(&mut self) -> bool { self.c(0) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
    fn on_version(&mut self, _: u16, _: u16) -> bool { self.c(0) }
}
impl http_box::http2::HttpHandler for Cnt {
    fn on_data(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
    fn on_frame_format(&mut self, _: u32, _: u8, _: u8, _: u32) -> bool { self.c(0) }
    fn on_go_away(&mut self, _: u32, _: u32) -> bool { self.c(0) }
    fn on_go_away_debug_data(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
    fn on_headers(&mut self, _: bool, _: u32, _: u8) -> bool { self.c(0) }
    fn on_headers_fragment(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
    fn on_ping(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
    fn on_priority(&mut self, _: bool, _: u32, _: u8) -> bool { self.c(0) }
    fn on_push_promise(&mut self, _: u32) -> bool { self.c(0) }
    fn on_rst_stream(&mut self, _: u32) -> bool { self.c(0) }
    fn on_settings(&mut self, _: u16, _: u32) -> bool { self.c(0) }
    fn on_unsupported(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
    fn on_window_update(&mut self, _: u32) -> bool { self.c(0) }
}

// ------------------------------------------------------------------------------------------------
// A run without any monitor, for coverage
// ------------------------------------------------------------------------------------------------

#[cfg(feature = "guided")]
mod thin {
    use super::*;
    use crate::ut::UK;
    use http_box::fsm::Success;
    pub struct Thin { n: usize, replies: Vec<bool>, cl: [Option<usize>; 2], cli: usize }
    impl Thin {
        pub fn new() -> Thin { Thin { n: 0, replies: vec![true; 256], cl: [None; 2], cli: 0 } }
        pub fn set(&mut self, i: &crate::ev::Intr, cls: &[Option<usize>]) {
            self.n = 0; self.cli = 0;
            for k in 0..256 { self.replies[k] = !i.hit(k as u64); }
            self.cl = match cls.len() { 0 => [None; 2], 1 => [cls[0]; 2], _ => [cls[0], cls[1]] };
        }
        #[inline(always)]
        fn c(&mut self, _: usize) -> bool { self.n += 1; self.replies[(self.n - 1) & 255] }
        #[inline(always)]
        fn cl(&mut self) -> Option<usize> { self.cli ^= 1; self.cl[self.cli ^ 1] }
    }
    impl http_box::http1::HttpHandler for Thin {
        fn content_length(&mut self) -> Option<usize> { self.cl() }
        fn on_body_finished(&mut self) -> bool { self.c(0) }
        fn on_chunk_begin(&mut self) -> bool { self.c(0) }
        fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_chunk_extension_finished(&mut self) -> bool { self.c(0) }
        fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_chunk_extensions_finished(&mut self) -> bool { self.c(0) }
        fn on_chunk_length(&mut self, _: usize) -> bool { self.c(0) }
        fn on_header_name(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_header_value(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_headers_finished(&mut self) -> bool { self.c(0) }
        fn on_initial_finished(&mut self) -> bool { self.c(0) }
        fn on_method(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_multipart_begin(&mut self) -> bool { self.c(0) }
        fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_status(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_status_code(&mut self, _: u16) -> bool { self.c(0) }
        fn on_url(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_url_encoded_begin(&mut self) -> bool { self.c(0) }
        fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.c(d.len()) }
        fn on_version(&mut self, _: u16, _: u16) -> bool { self.c(0) }
    }
    impl http_box::http2::HttpHandler for Thin {
        fn on_data(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
        fn on_frame_format(&mut self, _: u32, _: u8, _: u8, _: u32) -> bool { self.c(0) }
        fn on_go_away(&mut self, _: u32, _: u32) -> bool { self.c(0) }
        fn on_go_away_debug_data(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
        fn on_headers(&mut self, _: bool, _: u32, _: u8) -> bool { self.c(0) }
        fn on_headers_fragment(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
        fn on_ping(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
        fn on_priority(&mut self, _: bool, _: u32, _: u8) -> bool { self.c(0) }
        fn on_push_promise(&mut self, _: u32) -> bool { self.c(0) }
        fn on_rst_stream(&mut self, _: u32) -> bool { self.c(0) }
        fn on_settings(&mut self, _: u16, _: u32) -> bool { self.c(0) }
        fn on_unsupported(&mut self, d: &[u8], _: bool) -> bool { self.c(d.len()) }
        fn on_window_update(&mut self, _: u32) -> bool { self.c(0) }
    }

    macro_rules! slices { ($p:ident, $h:ident, $input:expr, $frags:expr) => {
        let (mut a, mut left) = (0, 4 * $input.len() + 200);
        for f in $frags {
            let e = (a + f).min($input.len());
            loop {
                match $p.resume($h, &$input[a..e]) { Ok(Success::Eos(n)) => { a += n; break } Ok(Success::Callback(n)) => a += n, _ => return }
                left -= 1;
                if left == 0 || a > e { return; }
            }
        }
    } }
    /// about where `stop` calls end
    pub fn some(c: &Case, stop: usize) -> usize { c.frags.iter().take(stop).sum::<usize>().min(c.input.len()) }
    pub fn thin1_again<'a>(p: &mut http_box::http1::Parser<'a, Thin>, h: &mut Thin, c: &'a Case, reset: bool) {
        if !reset { return thin1(p, h, c); }
        match c.mode { Mode::Multipart => p.set_boundary(&c.boundary), Mode::Url => p.set_length(c.length), _ => () }
        slices!(p, h, c.input, &c.frags);
    }
    pub fn thin1<'a>(p: &mut http_box::http1::Parser<'a, Thin>, h: &mut Thin, c: &'a Case) {
        match c.mode {
            Mode::New | Mode::H2 => (),
            Mode::Head => p.init_head(),
            Mode::Chunked => p.init_chunked(),
            Mode::Multipart => { p.init_multipart(); p.set_boundary(&c.boundary); }
            Mode::Url => { p.init_url_encoded(); p.set_length(c.length); }
        }
        slices!(p, h, c.input, &c.frags);
    }
    pub fn thin2(p: &mut http_box::http2::Parser<Thin>, h: &mut Thin, input: &[u8], frags: &[usize]) { slices!(p, h, input, frags); }
    pub fn thin_util(k: UK, s: &[u8]) -> usize {
        use http_box::util::*;
        match k {
            UK::Decode => decode(s).map_or(0, |x| x.len()),
            UK::Query => QueryIterator::new(s).take(s.len() + 4).count(),
            UK::Field { delim, norm } => FieldIterator::new(s, delim, norm).take(s.len() + 4).count(),
        }
    }
}
#[cfg(feature = "guided")]
pub use thin::*;

pub struct Acc;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static NUM: Cell<u64> = const { Cell::new(0) };
}
fn account(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        if d > 0 { let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); let _ = NUM.try_with(|n| n.set(n.get() + 1)); }
    });
}
unsafe impl std::alloc::GlobalAlloc for Acc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { account(l.size() as i64); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { account(l.size() as i64); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { account(-(l.size() as i64)); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { account(n as i64 - l.size() as i64); std::alloc::System.realloc(p, l, n) }
}
/// Peak of live bytes allocated by this thread above the start of `f`, and the number of allocations.
pub fn peak<R>(f: impl FnOnce() -> R) -> (i64, u64, R) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let n0 = NUM.with(|n| n.get());
    let r = f();
    (PEAK.with(|p| p.get()) - base, NUM.with(|n| n.get()) - n0, r)
}

/// Bytes this thread has allocated in `f` and not freed.
pub fn left(f: impl FnOnce()) -> i64 {
    let base = LIVE.with(|l| l.get());
    f();
    LIVE.with(|l| l.get()) - base
}

/// A large input of the given shape, about `n` bytes.
pub struct Shape { pub name: String, pub mode: Mode, pub make: Box<dyn Fn(usize) -> Vec<u8> + Send + Sync>, pub boundary: Vec<u8>, pub cl: fn(usize) -> Option<usize> }

fn rep(head: &[u8], unit: &[u8], n: usize, tail: &[u8]) -> Vec<u8> {
    let mut v = head.to_vec();
    while v.len() < n { v.extend(unit); }
    v.extend(tail);
    v
}
fn no(_: usize) -> Option<usize> { None }

pub fn shapes() -> Vec<Shape> {
    macro_rules! s { ($n:expr, $m:ident, $f:expr) => (Shape { name: $n.into(), mode: Mode::$m, make: Box::new($f), boundary: vec![], cl: no }) }
    macro_rules! mp { ($n:expr, $b:expr, $f:expr) => (Shape { name: $n.into(), mode: Mode::Multipart, make: Box::new($f), boundary: $b.to_vec(), cl: no }) }
    const H: &[u8] = b"GET / HTTP/1.1\r\n";
    const LB: &[u8] = &[b'-'; 512];
    vec![
        s!("leading-space", Head, |n| rep(b"", b"\r\n\t ", n, b"GET / HTTP/1.1\r\n\r\n")),
        s!("method", Head, |n| rep(b"", b"HTTP", n, b" / HTTP/1.1\r\n\r\n")),
        s!("url", Head, |n| rep(b"GET /", b"abcd%20?&=", n, b" HTTP/1.1\r\n\r\n")),
        s!("reason", Head, |n| rep(b"HTTP/1.1 200 ", b"OK yes ", n, b"\r\n\r\n")),
        s!("header-name", Head, |n| rep(H, b"Content-Security-Policy", n, b": a\r\n\r\n")),
        s!("header-name-lower", Head, |n| rep(H, b"a", n, b": a\r\n\r\n")),
        s!("header-name-upper", Head, |n| rep(H, b"A", n, b": a\r\n\r\n")),
        s!("header-value", Head, |n| rep(b"GET / HTTP/1.1\r\na: b", b"value ; ", n, b"\r\n\r\n")),
        s!("header-quotes", Head, |n| rep(b"GET / HTTP/1.1\r\na: b", b"\"\\\"\"", n, b"\r\n\r\n")),
        s!("header-escapes", Head, |n| rep(b"GET / HTTP/1.1\r\na: \"", b"\\a", n, b"\"\r\n\r\n")),
        s!("header-folds", Head, |n| rep(b"GET / HTTP/1.1\r\na: b", b"\r\n x", n, b"\r\n\r\n")),
        s!("header-fold-space", Head, |n| rep(b"GET / HTTP/1.1\r\na: b", b"\r\n\t", n, b"\r\n\r\n")),
        s!("header-leading-space", Head, |n| rep(b"GET / HTTP/1.1\r\na:", b" \t", n, b"x\r\n\r\n")),
        s!("header-count-tiny", Head, |n| rep(H, b"a:b\r\n", n, b"\r\n")),
        s!("header-count-empty", Head, |n| rep(H, b"A:\r\n", n, b"\r\n")),
        s!("header-count-known", Head, |n| rep(H, b"Accept-Encoding: gzip\r\nHost: x\r\nContent-Type: y\r\n", n, b"\r\n")),
        s!("header-count-nearly-known", Head, |n| rep(H, b"Accept-Encodinh: gzip\r\nHos: x\r\nContent-Security-Policz: y\r\n", n, b"\r\n")),
        s!("header-bad-end", Head, |n| rep(H, b"X: y\r\n", n, b"\x01")),
        s!("chunk-one", Chunked, |n| { let mut v = format!("{:x}\r\n", n).into_bytes(); v.extend(vec![b'\r'; n]); v.extend(b"\r\n0\r\n\r\n"); v }),
        s!("chunk-tiny", Chunked, |n| rep(b"", b"1\r\n\n\r\n", n, b"0\r\n\r\n")),
        s!("chunk-small", Chunked, |n| rep(b"", b"10\r\n0123456789abcdef\r\n", n, b"0\r\n\r\n")),
        s!("chunk-ext-many", Chunked, |n| rep(b"1", b";A=b", n, b"\r\nx\r\n0\r\n\r\n")),
        s!("chunk-ext-empty", Chunked, |n| rep(b"1", b";a", n, b"\r\nx\r\n0\r\n\r\n")),
        s!("chunk-ext-name", Chunked, |n| rep(b"1;", b"Ab", n, b"\r\nx\r\n0\r\n\r\n")),
        s!("chunk-ext-value", Chunked, |n| rep(b"1;a=", b"bc ", n, b"\r\nx\r\n0\r\n\r\n")),
        s!("chunk-ext-quoted", Chunked, |n| rep(b"1;a=\"", b"b\\\"", n, b"\"\r\nx\r\n0\r\n\r\n")),
        s!("chunk-trailers", Chunked, |n| rep(b"0\r\n", b"A: b\r\n", n, b"\r\n")),
        mp!("multipart-data", b"XX", |n| rep(b"--XX\r\n\r\n", b"some data here", n, b"\r\n--XX--")),
        mp!("multipart-cr", b"XX", |n| rep(b"--XX\r\n\r\n", b"\r", n, b"\r\n--XX--")),
        mp!("multipart-crlf", b"XX", |n| rep(b"--XX\r\n\r\n", b"\r\n", n, b"\r\n--XX--")),
        mp!("multipart-near", b"XXXY", |n| rep(b"--XXXY\r\n\r\n", b"\r\n--XXX", n, b"\r\n--XXXY--")),
        mp!("multipart-near-dash", b"--------", |n| rep(b"----------\r\n\r\n", b"\r\n-------", n, b"\r\n------------")),
        mp!("multipart-dashes", b"--X", |n| rep(b"----X\r\n\r\n", b"-", n, b"\r\n----X--")),
        mp!("multipart-long-boundary", LB, |n| { let mut h = b"--".to_vec(); h.extend(LB); h.extend(b"\r\n\r\n"); let mut u = b"\r\n".to_vec(); u.extend(vec![b'-'; 400]); let mut t = b"x\r\n--".to_vec(); t.extend(LB); t.extend(b"--"); rep(&h, &u, n, &t) }),
        mp!("multipart-parts", b"b", |n| rep(b"--b", b"\r\nA:b\r\n\r\nx\r\n--b", n, b"--")),
        mp!("multipart-empty-parts", b"b", |n| rep(b"--b", b"\r\n\r\n\r\n--b", n, b"--")),
        Shape { name: "multipart-length".into(), mode: Mode::Multipart, make: Box::new(|n| { let mut v = b"--b\r\n\r\n".to_vec(); v.extend((0..n).map(|i| b"\r\n--b--"[i % 7])); v.extend(b"\r\n--b--"); v }), boundary: b"b".to_vec(), cl: |n| Some(n) },
        s!("url-plain", Url, |n| rep(b"a=", b"bcdefgh", n, b"")),
        s!("url-escapes", Url, |n| rep(b"a=", b"%41", n, b"")),
        s!("url-plus", Url, |n| rep(b"", b"+", n, b"")),
        s!("url-pairs", Url, |n| rep(b"", b"a=b&", n, b"")),
        s!("url-empty-pairs", Url, |n| rep(b"", b"&", n, b"")),
        s!("url-equals", Url, |n| rep(b"", b"=", n, b"")),
        s!("url-bad-end", Url, |n| rep(b"", b"a=b&", n, b"\x00")),
        s!("h2-data", H2, |n| { let mut v = vec![]; crate::h2::put(&mut v, 0, 0, 1, &vec![7u8; n]); v }),
        s!("h2-data-padded", H2, |n| { let mut u = vec![]; let mut p = vec![255u8]; p.extend(vec![1; 300]); crate::h2::put(&mut u, 0, 8, 1, &p); rep(b"", &u, n, b"") }),
        s!("h2-empty", H2, |n| rep(b"", &[0, 0, 0, 0, 0, 0, 0, 0, 1], n, b"")),
        s!("h2-mix", H2, |n| { let mut u = vec![]; for t in crate::h2::templates2().iter().take(9) { u.extend(&t.input); } rep(b"", &u, n, b"") }),
        s!("h2-settings", H2, |n| { let k = n / 6 * 6; let mut v = vec![]; crate::h2::put(&mut v, 4, 0, 0, &vec![1u8; k]); v }),
        s!("h2-unsupported", H2, |n| { let mut v = vec![]; crate::h2::put(&mut v, 99, 0, 1, &vec![7u8; n]); v }),
        s!("h2-fragment", H2, |n| { let mut v = vec![]; crate::h2::put(&mut v, 1, 0x24, 1, &vec![7u8; n]); v }),
        s!("h2-continuation", H2, |n| { let mut v = vec![]; crate::h2::put(&mut v, 9, 4, 1, &vec![7u8; n]); v }),
        s!("h2-debug", H2, |n| { let mut v = vec![]; crate::h2::put(&mut v, 7, 0, 1, &vec![7u8; n]); v }),
        s!("h2-ping", H2, |n| rep(b"", &[0, 0, 8, 6, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8], n, b"")),
    ]
}

/// A message of any kind with some part of it repeated.
pub fn pumped(r: &mut crate::rng::Rng) -> Shape {
    use crate::h1gen as g;
    let mode = *r.pick(&[Mode::Head, Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url, Mode::H2]);
    let c = if r.bool() { let t: Vec<_> = g::templates().into_iter().chain(crate::h2::templates2()).filter(|c| c.mode == mode).collect(); r.pick(&t).clone() }
            else if mode == Mode::H2 { crate::h2::any2(r, false) } else if r.bool() { g::valid(r, mode, false) } else { g::any(r, mode, false) };
    let a = r.below(c.input.len().max(1));
    let most = *r.pick(&[2usize, 8, 64]);
    let k = 1 + r.below(most);
    let b = (a + k).min(c.input.len());
    let (pre, unit, post) = (c.input[..a].to_vec(), c.input[a..b].to_vec(), c.input[if r.bool() { a } else { b }..].to_vec());
    let unit = if unit.is_empty() { b"x".to_vec() } else { unit };
    let name = format!("pumped {:?} \"{}\" ( \"{}\" )* \"{}\"", mode, crate::ev::show(&pre), crate::ev::show(&unit), crate::ev::show(&post));
    Shape { name, mode, make: Box::new(move |n| rep(&pre, &unit, pre.len() + n, &post)), boundary: c.boundary.clone(), cl: no }
}

/// Very many elements, no two alike.
pub fn different(r: &mut crate::rng::Rng, n: usize) -> (Shape, Vec<u8>) {
    use crate::h1gen as g;
    let mode = *r.pick(&[Mode::Head, Mode::Chunked, Mode::Chunked, Mode::Multipart, Mode::Url, Mode::H2, Mode::H2, Mode::H2]);
    let kind = r.below(4);
    let mut v: Vec<u8> = vec![];
    let mut i = r.below(1 << 20) as u32;
    if mode == Mode::Head { v.extend(if kind == 0 { &b"HTTP/1.1 200 OK\r\n"[..] } else { b"GET / HTTP/1.1\r\n" }); }
    if mode == Mode::Chunked && kind == 0 { v.extend(b"0\r\n"); }
    if mode == Mode::Multipart { v.extend(b"--b"); }
    let ty = r.u8() % 12;
    while v.len() < n {
        i += 1 + (kind == 1) as u32;
        match mode {
            Mode::Head => v.extend(format!("n-{}: v{}\r\n", i, i).as_bytes()),
            Mode::Chunked if kind == 0 => v.extend(format!("t-{}: v{}\r\n", i, i).as_bytes()),
            Mode::Chunked => { let k = 1 + i as usize % 60; v.extend(format!("{:x};e{}=v{}\r\n", k, i, i).as_bytes()); v.extend(g::payload(r, k)); v.extend(b"\r\n"); }
            Mode::Multipart => v.extend(format!("\r\nContent-Disposition: form-data; name=\"f{}\"\r\n\r\n{}\r\n--b", i, i).as_bytes()),
            Mode::Url => v.extend(format!("n{}=v{}&", i, i).as_bytes()),
            _ => {
                let at = v.len();
                if kind < 2 { crate::h2::frame(r, false, &mut v); }
                else {
                    let p: Vec<u8> = match ty { 2 => vec![0, 0, 0, 3, 7], 3 | 8 => vec![0, 0, 0, 1], 4 => vec![i as u8, 1, 0, 0, 0, 9], 5 => i.to_be_bytes().to_vec(), 6 => vec![1, 2, 3, 4, 5, 6, 7, i as u8], 7 => { let mut p = i.to_be_bytes().to_vec(); p.extend(&[0, 0, 0, 2, 1, 2, 3]); p } _ => vec![b'x'; 1 + i as usize % 9] };
                    crate::h2::put(&mut v, ty, 4 * (kind == 2) as u8, 1, &p);
                }
                v[at + 5..at + 9].copy_from_slice(&(i & 0x7FFF_FFFF).to_be_bytes());
            }
        }
    }
    match mode { Mode::Head => v.extend(b"\r\n"), Mode::Chunked if kind == 0 => v.extend(b"\r\n"), Mode::Chunked => v.extend(b"0\r\n\r\n"), Mode::Multipart => v.extend(b"--"), Mode::Url => { v.pop(); } _ => () }
    (Shape { name: format!("different {:?} elements (kind {}, {})", mode, kind, ty), mode, make: Box::new(|_| vec![]), boundary: b"b".to_vec(), cl: no }, v)
}

pub struct Fed { pub n: u64, pub bytes: u64, pub ok: bool, pub used: usize, pub cbs: u64, pub calls: u64 }

/// Parse with slices of `step` bytes; `every`: each so many callbacks one replies false.
pub fn feed(sh: &Shape, input: &[u8], step: usize, every: u64, n: usize) -> Fed {
    use http_box::fsm::Success::*;
    let mut h = Cnt::new();
    h.every = every;
    h.cl = (sh.cl)(n);
    let mut at = 0;
    let mut ok = true;
    let mut calls = 0u64;
    macro_rules! go { ($p:ident) => ({
        let mut end = step.min(input.len());
        loop {
            calls += 1;
            if calls > 64 + 16 * input.len() as u64 { ok = false; break; }
            match $p.resume(&mut h, &input[at..end]) {
                Ok(Callback(k)) => at += k,
                Ok(Eos(k)) => { at += k; if end == input.len() { break; } end = (at + step).min(input.len()); }
                Ok(Finished(k)) => { at += k; break; }
                Err(_) => { ok = false; break; }
            }
        }
    }) }
    if sh.mode == Mode::H2 { let mut p = http_box::http2::Parser::new(); go!(p); }
    else {
        let mut p = http_box::http1::Parser::new();
        match sh.mode {
            Mode::Head => p.init_head(), Mode::Chunked => p.init_chunked(),
            Mode::Multipart => { p.init_multipart(); p.set_boundary(&sh.boundary); }
            Mode::Url => { p.init_url_encoded(); p.set_length(input.len()); }
            _ => (),
        }
        go!(p);
    }
    Fed { n: input.len() as u64, bytes: h.bytes, ok, used: at, cbs: h.n, calls }
}

// ------------------------------------------------------------------------------------------------
// C02: slices that touch inaccessible memory
// ------------------------------------------------------------------------------------------------

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
pub struct Guard { base: *mut u8, len: usize }
impl Guard {
    /// `pages` accessible pages between two inaccessible ones.
    pub fn new(pages: usize) -> Guard {
        unsafe {
            let len = pages * 4096;
            let m = mmap(std::ptr::null_mut(), len + 8192, 0, 0x22, -1, 0);
            assert!(m as isize != -1);
            assert!(mprotect(m.add(4096), len, 3) == 0);
            Guard { base: m.add(4096), len }
        }
    }
    /// A copy of `d` that ends (or starts) at the inaccessible page.
    pub fn place(&self, d: &[u8], at_end: bool) -> &[u8] {
        assert!(d.len() <= self.len);
        unsafe {
            let p = if at_end { self.base.add(self.len - d.len()) } else { self.base };
            std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
            std::slice::from_raw_parts(p, d.len())
        }
    }
}
thread_local! { pub static GUARDS: (Guard, Guard) = (Guard::new(16), Guard::new(16)); }

/// Parse a case with every slice placed at an inaccessible page.
pub fn guarded(c: &Case, at_end: bool) -> (Fin, usize, u64) {
    use http_box::fsm::Success::*;
    GUARDS.with(|(g, gb)| {
        let mut h = Rec::new(c.intr.clone(), c.cls.clone(), 64 + 16 * c.input.len() as u64);
        h.count_only = true;
        let mut pos = 0;
        let mut calls = 0u64;
        let mut fin = Fin::More;
        let boundary = gb.place(&c.boundary, at_end);
        let r = crate::engine::catch(|| {
            macro_rules! go { ($p:ident) => ({
                let mut fi = 0;
                'o: while fi <= c.frags.len() {
                    let end = if fi < c.frags.len() { (pos + c.frags[fi]).min(c.input.len()) } else { pos };
                    fi += 1;
                    loop {
                        calls += 1;
                        if calls > 128 + 16 * c.input.len() as u64 { panic!("no progress"); }
                        h.begin_call();
                        let s = g.place(&c.input[pos..end], at_end);
                        match $p.resume(&mut h, s) {
                            Ok(Callback(k)) => { pos += k; }
                            Ok(Eos(k)) => { pos += k; break; }
                            Ok(Finished(k)) => { pos += k; fin = Fin::Finished; break 'o; }
                            Err(_) => { fin = Fin::Err(EK::Other, 0); break 'o; }
                        }
                    }
                }
                // a finished or dead parser
                for x in [&b""[..], b"\r\n"] { let _ = $p.resume(&mut h, g.place(x, at_end)); }
            }) }
            if c.mode == Mode::H2 { let mut p = http_box::http2::Parser::new(); go!(p); }
            else {
                let mut p = http_box::http1::Parser::new();
                match c.mode {
                    Mode::Head => p.init_head(), Mode::Chunked => p.init_chunked(),
                    Mode::Multipart => { p.init_multipart(); p.set_boundary(boundary); }
                    Mode::Url => { p.init_url_encoded(); p.set_length(c.length); }
                    _ => (),
                }
                go!(p);
            }
        });
        if let Err(m) = r { fin = Fin::Panic(m); }
        (fin, pos, h.bytes)
    })
}

pub fn guarded_util(k: crate::ut::UK, s: &[u8], at_end: bool) -> usize {
    use crate::ut::UK;
    use http_box::util::*;
    GUARDS.with(|(g, _)| {
        let s = g.place(s, at_end);
        crate::engine::catch(|| match k {
            UK::Decode => decode(s).map(|x| x.len()).unwrap_or(0),
            UK::Query => QueryIterator::new(s).take(s.len() + 8).map(|x| x.0.len() + x.1.map_or(0, |v| v.len())).sum(),
            UK::Field { delim, norm } => FieldIterator::new(s, delim, norm).take(s.len() + 8).map(|x| x.0.len() + x.1.map_or(0, |v| v.len())).sum(),
        }).unwrap_or(0)
    })
}

// ------------------------------------------------------------------------------------------------
// C24: RFC 7540 tables
// ------------------------------------------------------------------------------------------------

pub fn frame_types(b: u8) -> Result<(), String> {
    use http_box::http2::FrameType as F;
    let f = F::from_u8(b);
    let want = match b { 0 => F::Data, 1 => F::Headers, 2 => F::Priority, 3 => F::RstStream, 4 => F::Settings, 5 => F::PushPromise, 6 => F::Ping, 7 => F::GoAway, 8 => F::WindowUpdate, 9 => F::Continuation, _ => F::Unsupported };
    if f != want { return Err(format!("FrameType::from_u8({}) is {:?}, expected {:?}", b, f, want)); }
    if b < 10 && f.as_byte() != b { return Err(format!("FrameType {:?}: as_byte() is {}, expected {}", f, f.as_byte(), b)); }
    if b >= 10 && F::from_u8(f.as_byte()) != F::Unsupported { return Err(format!("unsupported frame type {}: as_byte() is the assigned value {}", b, f.as_byte())); }
    let preds = [f.is_data(), f.is_headers(), f.is_priority(), f.is_rst_stream(), f.is_settings(), f.is_push_promise(), f.is_push_ping(), f.is_go_away(), f.is_window_update(), f.is_continuation(), f.is_unsupported()];
    for (i, p) in preds.iter().enumerate() {
        if *p != (i == (b as usize).min(10)) { return Err(format!("FrameType {:?} (from {}): predicate {} answers {}", f, b, i, p)); }
    }
    Ok(())
}

pub fn error_codes(b: u8) -> Result<(), String> {
    use http_box::http2::ErrorCode as E;
    let e = E::from_u8(b);
    let want = match b { 0 => E::NoError, 1 => E::Protocol, 2 => E::Internal, 3 => E::FlowControl, 4 => E::SettingsTimeout, 5 => E::StreamClosed, 6 => E::FrameSize, 7 => E::RefusedStream, 8 => E::Cancel, 9 => E::Compression, 10 => E::Connect, 11 => E::EnhanceYourCalm, 12 => E::InadequateSecurity, 13 => E::Http11Required, _ => E::Unsupported };
    if e != want { return Err(format!("ErrorCode::from_u8({}) is {:?}, expected {:?}", b, e, want)); }
    if b < 14 && e.as_byte() != b { return Err(format!("ErrorCode {:?}: as_byte() is {}, expected {}", e, e.as_byte(), b)); }
    if b >= 14 && E::from_u8(e.as_byte()) != E::Unsupported { return Err(format!("unsupported error code {}: as_byte() is the assigned value {}", b, e.as_byte())); }
    let preds = [e.is_no_error(), e.is_protocol(), e.is_internal(), e.is_flow_control(), e.is_settings_timeout(), e.is_stream_closed(), e.is_frame_size(), e.is_refused_stream(), e.is_cancel(), e.is_compression(), e.is_connect(), e.is_enhance_your_calm(), e.is_inadequate_security(), e.is_http_1_1_required()];
    for (i, p) in preds.iter().enumerate() {
        if *p != (i == b as usize) { return Err(format!("ErrorCode {:?} (from {}): predicate {} answers {}", e, b, i, p)); }
    }
    Ok(())
}

pub fn flag_bits(b: u8) -> Result<(), String> {
    let f = http_box::http2::Flags::from_u8(b);
    if f.as_byte() != b { return Err(format!("Flags::from_u8({}).as_byte() is {}", b, f.as_byte())); }
    for (n, got, want) in [("is_ack", f.is_ack(), b & 1 != 0), ("is_end_stream", f.is_end_stream(), b & 1 != 0), ("is_end_headers", f.is_end_headers(), b & 4 != 0),
        ("is_padded", f.is_padded(), b & 8 != 0), ("is_priority", f.is_priority(), b & 0x20 != 0), ("is_empty", f.is_empty(), b == 0)] {
        if got != want { return Err(format!("Flags({:#04x}).{}() is {}", b, n, got)); }
    }
    Ok(())
}

pub fn settings(id: u16, v: u32) -> Result<(), String> {
    use http_box::http2::Setting as S;
    let s = S::Unsupported(0).new(id, v);
    let preds = [s.is_header_table_size(), s.is_enable_push(), s.is_max_concurrent_streams(), s.is_initial_window_size(), s.is_max_frame_size(), s.is_max_header_list_size(), s.is_unsupported()];
    let want = if (1..=6).contains(&id) { id as usize - 1 } else { 6 };
    for (i, p) in preds.iter().enumerate() { if *p != (i == want) { return Err(format!("Setting id {} value {}: predicate {} answers {}", id, v, i, p)); } }
    let var = match s { S::HeaderTableSize(_) => 0, S::EnablePush(_) => 1, S::MaxConcurrentStreams(_) => 2, S::InitialWindowSize(_) => 3, S::MaxFrameSize(_) => 4, S::MaxHeaderListSize(_) => 5, S::Unsupported(_) => 6 };
    if var != want { return Err(format!("Setting id {} is variant {}", id, var)); }
    if s.value() != v { return Err(format!("Setting id {} value {}: value() is {}", id, v, s.value())); }
    Ok(())
}

pub fn frame_format(len: u32, ty: u8, fl: u8, sid: u32) -> Result<(), String> {
    let f = http_box::http2::FrameFormat::new(len, ty, fl, sid);
    let what = format!("FrameFormat::new({}, {}, {}, {})", len, ty, fl, sid);
    if f.payload_length() != len { return Err(format!("{}.payload_length() is {}", what, f.payload_length())); }
    if f.frame_type() != http_box::http2::FrameType::from_u8(ty) { return Err(format!("{}.frame_type() is {:?}", what, f.frame_type())); }
    if f.flags().as_byte() != fl { return Err(format!("{}.flags() is {}", what, f.flags().as_byte())); }
    if f.stream_id() != sid { return Err(format!("{}.stream_id() is {}", what, f.stream_id())); }
    Ok(())
}
