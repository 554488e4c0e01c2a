#![allow(dead_code)]
// Shared by the demonstrations: a handler that records what it is told, with adjacent pieces of one
// item joined, and drivers that feed slices and resume after interruptions.
use http_box::{http1, http2};

#[derive(Default)]
pub struct Log {
    pub ev: Vec<(String, Vec<u8>)>,
    pub n: usize,
    pub stop: Vec<usize>,
    pub stop_all: bool,
    pub cl: Vec<Option<usize>>,
}

impl Log {
    pub fn new() -> Log { Log::default() }
    fn reply(&mut self) -> bool {
        let n = self.n;
        self.n += 1;
        !(self.stop_all || self.stop.contains(&n))
    }
    fn data(&mut self, k: &str, d: &[u8]) -> bool {
        match self.ev.last_mut() {
            Some(e) if e.0 == k => e.1.extend_from_slice(d),
            _ => self.ev.push((k.to_string(), d.to_vec())),
        }
        self.reply()
    }
    fn mark(&mut self, k: String) -> bool {
        self.ev.push((format!("[{}]", k), vec![]));
        self.reply()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for e in &self.ev {
            s.push_str(&e.0);
            if !e.0.starts_with('[') {
                s.push('=');
                for b in &e.1 { s.extend(std::ascii::escape_default(*b).map(|c| c as char)); }
                s.push(';');
            }
        }
        s
    }
}

impl http1::HttpHandler for Log {
    fn content_length(&mut self) -> Option<usize> { if self.cl.is_empty() { None } else { self.cl.remove(0) } }
    fn on_body_finished(&mut self) -> bool { self.mark("body".into()) }
    fn on_chunk_begin(&mut self) -> bool { self.mark("chunk".into()) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.data("data", d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.mark("ext".into()) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.data("en", d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.data("ev", d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.mark("exts".into()) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.mark(format!("len {}", n)) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.data("hn", d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.data("hv", d) }
    fn on_headers_finished(&mut self) -> bool { self.mark("headers".into()) }
    fn on_initial_finished(&mut self) -> bool { self.mark("initial".into()) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.data("method", d) }
    fn on_multipart_begin(&mut self) -> bool { self.mark("part".into()) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.data("data", d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.data("status", d) }
    fn on_status_code(&mut self, c: u16) -> bool { self.mark(format!("code {}", c)) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.data("url", d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.mark("pair".into()) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.data("un", d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.data("uv", d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.mark(format!("v{}.{}", a, b)) }
}

impl http2::HttpHandler for Log {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.payload("data", d, f) }
    fn on_frame_format(&mut self, l: u32, t: u8, f: u8, s: u32) -> bool { self.mark(format!("frame {} {} {} {}", l, t, f, s)) }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.mark(format!("goaway {} {}", s, e)) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.payload("debug", d, f) }
    fn on_headers(&mut self, x: bool, s: u32, w: u8) -> bool { self.mark(format!("headers {} {} {}", x, s, w)) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.payload("fragment", d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.payload("ping", d, f) }
    fn on_priority(&mut self, x: bool, s: u32, w: u8) -> bool { self.mark(format!("priority {} {} {}", x, s, w)) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.mark(format!("push {}", s)) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.mark(format!("rst {}", e)) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.mark(format!("setting {} {}", i, v)) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.payload("unsupported", d, f) }
    fn on_window_update(&mut self, n: u32) -> bool { self.mark(format!("window {}", n)) }
}

impl Log {
    fn payload(&mut self, k: &str, d: &[u8], f: bool) -> bool {
        match self.ev.last_mut() {
            Some(e) if e.0 == k => e.1.extend_from_slice(d),
            _ => self.ev.push((k.to_string(), d.to_vec())),
        }
        if f { self.ev.push(("[end]".into(), vec![])); }
        self.reply()
    }
}

pub type P1<'a> = http1::Parser<'a, Log>;
pub type P2<'a> = http2::Parser<'a, Log>;

/// Initialise for `head`, `chunked`, `multipart:BOUNDARY` or `url:LENGTH`.
pub fn init(p: &mut P1<'static>, mode: &str) {
    let mut it = mode.splitn(2, ':');
    match it.next().unwrap() {
        "head" => p.init_head(),
        "chunked" => p.init_chunked(),
        "multipart" => {
            p.init_multipart();
            p.set_boundary(Box::leak(it.next().unwrap().to_string().into_boxed_str()).as_bytes());
        }
        "url" => {
            p.init_url_encoded();
            p.set_length(it.next().unwrap().parse().unwrap());
        }
        _ => panic!("mode"),
    }
}

/// Feed slices; each result with its count, the joined callbacks and the running byte count.
pub fn feed1(p: &mut P1<'static>, log: &mut Log, slices: &[&[u8]]) -> String {
    let mut total = 0;
    let base = p.byte_count();
    for s in slices {
        let mut rest = *s;
        loop {
            match p.resume(log, rest) {
                Ok(r) => {
                    let t = format!("{:?}", r);
                    let n: usize = r.to_string().parse().unwrap();
                    total += n;
                    if n > rest.len() { return format!("{} COUNT TOO LARGE {} of {}", log.text(), n, rest.len()); }
                    rest = &rest[n..];
                    if t.contains("Callback") { continue; }
                    if t.contains("Eos") { break; }
                    return format!("{} -> Finished after {} ({})", log.text(), total, p.byte_count() - base);
                }
                Err(e) => return format!("{} -> {:?} after {}", log.text(), e, p.byte_count() - base),
            }
        }
    }
    format!("{} -> more after {} ({})", log.text(), total, p.byte_count() - base)
}

pub fn feed2(p: &mut P2<'static>, log: &mut Log, slices: &[&[u8]]) -> String {
    let mut total = 0;
    for s in slices {
        let mut rest = *s;
        loop {
            match p.resume(log, rest) {
                Ok(r) => {
                    let t = format!("{:?}", r);
                    let n: usize = r.to_string().parse().unwrap();
                    total += n;
                    if n > rest.len() { return format!("{} COUNT TOO LARGE {} of {}", log.text(), n, rest.len()); }
                    rest = &rest[n..];
                    if t.contains("Callback") { continue; }
                    break;
                }
                Err(_) => return format!("{} -> failed", log.text()),
            }
        }
    }
    format!("{} -> {} ({})", log.text(), total, p.byte_count())
}

pub fn h1(mode: &str, slices: &[&[u8]], stop: &[usize]) -> String {
    let mut p = P1::new();
    init(&mut p, mode);
    let mut log = Log::new();
    log.stop = stop.to_vec();
    feed1(&mut p, &mut log, slices)
}

pub fn h1_all_stops(mode: &str, slices: &[&[u8]]) -> String {
    let mut p = P1::new();
    init(&mut p, mode);
    let mut log = Log::new();
    log.stop_all = true;
    feed1(&mut p, &mut log, slices)
}

pub fn h2(slices: &[&[u8]], stop: &[usize]) -> String {
    let mut p = P2::new();
    let mut log = Log::new();
    log.stop = stop.to_vec();
    feed2(&mut p, &mut log, slices)
}

/// Cut at the given offsets.
pub fn cut<'a>(d: &'a [u8], at: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut o = 0;
    for &a in at { v.push(&d[o..a]); o = a; }
    v.push(&d[o..]);
    v
}

/// Pieces of `n` bytes, each in its own exact allocation.
pub fn pieces(d: &[u8], n: usize) -> Vec<&'static [u8]> {
    d.chunks(n).map(|c| &*Box::leak(c.to_vec().into_boxed_slice())).collect()
}

pub fn frame(t: u8, flags: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let l = payload.len();
    let mut v = vec![(l >> 16) as u8, (l >> 8) as u8, l as u8, t, flags,
                     (id >> 24) as u8, (id >> 16) as u8, (id >> 8) as u8, id as u8];
    v.extend_from_slice(payload);
    v
}

pub fn same(what: &str, got: String, want: &str) {
    if got != want {
        eprintln!("{}:\n   got {}\n  want {}", what, got, want);
        std::process::exit(1);
    }
}
