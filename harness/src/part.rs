//! Handlers that leave callbacks out, and the printed forms of public values.

use crate::ev::*;
use crate::h1::{Case, Fin, Mode};
use http_box::fsm::Success;
use http_box::{http1, http2};

/// Implements nothing.
pub struct Nop;
impl http1::HttpHandler for Nop {}
impl http2::HttpHandler for Nop {}

/// Each implements some of the callbacks.
pub struct Odd(pub Rec);
pub struct Even(pub Rec);
use http1::HttpHandler as A;
use http2::HttpHandler as B;

impl A for Odd {
    fn on_chunk_begin(&mut self) -> bool { self.0.on_chunk_begin() }
    fn on_chunk_extension_finished(&mut self) -> bool { self.0.on_chunk_extension_finished() }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.0.on_chunk_extension_value(d) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.0.on_chunk_length(n) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.0.on_header_value(d) }
    fn on_initial_finished(&mut self) -> bool { self.0.on_initial_finished() }
    fn on_multipart_begin(&mut self) -> bool { self.0.on_multipart_begin() }
    fn on_status(&mut self, d: &[u8]) -> bool { self.0.on_status(d) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.0.on_url(d) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.0.on_url_encoded_name(d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.0.on_version(a, b) }
}
impl A for Even {
    fn content_length(&mut self) -> Option<usize> { A::content_length(&mut self.0) }
    fn on_body_finished(&mut self) -> bool { self.0.on_body_finished() }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.0.on_chunk_data(d) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.0.on_chunk_extension_name(d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.0.on_chunk_extensions_finished() }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.0.on_header_name(d) }
    fn on_headers_finished(&mut self) -> bool { self.0.on_headers_finished() }
    fn on_method(&mut self, d: &[u8]) -> bool { self.0.on_method(d) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.0.on_multipart_data(d) }
    fn on_status_code(&mut self, c: u16) -> bool { self.0.on_status_code(c) }
    fn on_url_encoded_begin(&mut self) -> bool { self.0.on_url_encoded_begin() }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.0.on_url_encoded_value(d) }
}
impl B for Odd {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.0.on_data(d, f) }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.0.on_go_away(s, e) }
    fn on_headers(&mut self, x: bool, s: u32, w: u8) -> bool { self.0.on_headers(x, s, w) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.0.on_ping(d, f) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.0.on_push_promise(s) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.0.on_settings(i, v) }
    fn on_window_update(&mut self, n: u32) -> bool { self.0.on_window_update(n) }
}
impl B for Even {
    fn on_frame_format(&mut self, l: u32, t: u8, fl: u8, s: u32) -> bool { self.0.on_frame_format(l, t, fl, s) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.0.on_go_away_debug_data(d, f) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.0.on_headers_fragment(d, f) }
    fn on_priority(&mut self, x: bool, s: u32, w: u8) -> bool { self.0.on_priority(x, s, w) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.0.on_rst_stream(e) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.0.on_unsupported(d, f) }
}

fn odd(k: K) -> bool {
    use K::*;
    matches!(k, ChunkBegin | ExtFin | ExtVal | ChunkLen | HVal | Initial | MpBegin | Status | Url | UName | Version
        | Data | DataEnd | GoAway | HeadersF | Ping | PingEnd | PushPromise | Setting | Window)
}

/// The events one of the halves should see: adjacent pieces of one item are one event, but items
/// that become adjacent because what separates them is left out are joined in both logs.
pub fn half(l: &Log, want_odd: bool) -> Log {
    let mut o = Log::default();
    for e in l.evs.iter().filter(|e| odd(e.k) == want_odd) {
        if e.k.is_data() && !e.d.is_empty() { o.data(e.k, &e.d) } else if e.k == K::HVal { o.empty(e.k) } else { o.ev(e.k, e.a) }
    }
    o
}

#[derive(Default, Debug, PartialEq)]
pub struct Trip { pub fin: Option<Fin>, pub off: usize, pub total: usize, pub ends: Vec<usize>, pub stops: u64 }

/// Feed the slices of a case, going on after interruptions.
fn go(c: &Case, mut f: impl FnMut(&[u8]) -> (Result<Success, Fin>, usize)) -> Trip {
    let mut t = Trip::default();
    let (mut at, mut flush) = (0, 0);
    let mut frags = c.frags.clone();
    frags.push(0);
    for n in frags {
        let end = (at + n).min(c.input.len());
        let mut guard = 0;
        loop {
            let b: Box<[u8]> = c.input[at..end].into();
            let (r, total) = f(&b);
            t.total = total;
            guard += 1;
            if guard > 64 + 16 * c.input.len() { t.fin = Some(Fin::Broken); return t; }
            match r {
                Ok(Success::Callback(n)) => { t.stops += 1; at += n; if at > end { t.fin = Some(Fin::Broken); return t; } }
                Ok(Success::Eos(n)) => { at += n; t.off = at; t.ends.push(at); break; }
                Ok(Success::Finished(n)) => { t.off = at + n; t.fin = Some(Fin::Finished); return t; }
                Err(e) => { t.off = at; t.fin = Some(e); return t; }
            }
        }
        flush += 1;
        if at != end { t.fin = Some(Fin::Broken); return t; }
    }
    let _ = flush;
    t.fin = Some(Fin::More);
    t
}

pub fn with<H: A + B>(c: &Case, h: &mut H) -> Trip {
    if c.mode == Mode::H2 {
        let mut p = http2::Parser::new();
        return go(c, |b| { let r = p.resume(h, b).map_err(|e| Fin::Panic(format!("{:?}", e))); (r, p.byte_count()) });
    }
    let mut p = http1::Parser::new();
    match c.mode {
        Mode::New | Mode::H2 => (),
        Mode::Head => p.init_head(),
        Mode::Chunked => p.init_chunked(),
        Mode::Multipart => { p.init_multipart(); p.set_boundary(&c.boundary); }
        Mode::Url => { p.init_url_encoded(); p.set_length(c.length); }
    }
    go(c, |b| { let r = p.resume(h, b).map_err(|e| { let (k, b) = crate::h1::ek(e); Fin::Err(k, b) }); (r, p.byte_count()) })
}

/// A handler that leaves callbacks out is as good as one that replies true to them.
pub fn optional(c: &Case) -> Result<u64, String> {
    let quiet = Case { intr: Intr::None, ..c.clone() };
    let mut none = quiet.clone();
    none.cls = vec![];
    let mut all = crate::h1::handler(&none);
    let ta = with(&none, &mut all);
    let tn = with(&none, &mut Nop);
    if ta != tn { return Err(format!("a handler without callbacks leads to {:?}, one that replies true to every callback to {:?}", tn, ta)); }
    let mut o = Odd(crate::h1::handler(&none));
    let to = with(&none, &mut o);
    if to != ta { return Err(format!("a handler with some callbacks leads to {:?}, one that replies true to every callback to {:?}", to, ta)); }
    if half(&o.0.log, true) != half(&all.log, true) { return Err(format!("a handler with some callbacks is told {:?}, one with all of them {:?}", o.0.log.evs, all.log.evs)); }
    // the other half knows the content length
    let mut full = crate::h1::handler(&quiet);
    let tf = with(&quiet, &mut full);
    let mut e = Even(crate::h1::handler(&quiet));
    let te = with(&quiet, &mut e);
    if te != tf { return Err(format!("a handler with the other callbacks leads to {:?}, one that replies true to every callback to {:?}", te, tf)); }
    if half(&e.0.log, false) != half(&full.log, false) { return Err(format!("a handler with the other callbacks is told {:?}, one with all of them {:?}", e.0.log.evs, full.log.evs)); }
    // interruptions by the callbacks that are there
    if c.intr != Intr::None {
        let mut o = Odd(crate::h1::handler(&none));
        o.0.intr = c.intr.clone();
        let to = with(&none, &mut o);
        if half(&o.0.log, true) != half(&all.log, true) || to.fin != ta.fin || to.total != ta.total { return Err(format!("interrupted, a handler with some callbacks is told {:?} and leads to {:?}, one that replies true to every callback {:?} and {:?}", o.0.log.evs, to, all.log.evs, ta)); }
    }
    Ok(all.ncb + full.ncb)
}

// ------------------------------------------------------------------------------------------------
// Printed forms
// ------------------------------------------------------------------------------------------------

pub fn words(s: &str) -> Vec<String> { s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect() }

/// The text of a value names its type and variant and carries its numbers.
fn text(d: &str, ty: &str, variant: &str, nums: &[u64]) -> Result<(), String> {
    let w = words(d);
    let bad = |m: String| Err(format!("{}::{} {:?} is printed as \"{}\": {}", ty, variant, nums, d, m));
    if !w.iter().any(|x| x == ty) { return bad(format!("the name {} is missing", ty)); }
    if !variant.is_empty() && !w.iter().any(|x| x == variant) { return bad(format!("the name {} is missing", variant)); }
    let n: Vec<u64> = w.iter().filter_map(|x| x.parse().ok()).collect();
    if n != nums { return bad(format!("it carries the numbers {:?}", n)); }
    Ok(())
}

macro_rules! both { ($v:expr) => { [format!("{}", $v), format!("{:?}", $v)] } }

pub fn printed(k: u64) -> Result<u64, String> {
    let b = (k & 255) as u8;
    let mut n = 0;
    macro_rules! one { ($ty:expr, $v:expr, $var:expr, $nums:expr) => {{ for d in both!($v) { text(&d, $ty, $var, $nums)?; n += 1; } }} }
    use http1::ParserError as P;
    macro_rules! pe { ($($x:ident)*) => { $( one!("ParserError", P::$x(b), stringify!($x), &[b as u64]); )* } }
    pe!(ChunkExtensionName ChunkExtensionValue ChunkLength CrlfSequence HeaderName HeaderValue Method Multipart MultipartBoundary Status StatusCode Url UrlEncodedName UrlEncodedValue Version);
    one!("ParserError", P::Dead, "Dead", &[]);
    one!("ParserError", P::ChunkLengthOverflow, "ChunkLengthOverflow", &[]);
    // the error type of HTTP/2 has no public name
    let (mut p, mut h) = (http2::Parser::new(), Nop);
    let e = p.resume(&mut h, &[0, 0, 3, 3, 0, 0, 0, 0, 0, 1, 2, 3]).err();
    if let (Some(e), Some(f)) = (e, p.resume(&mut h, b"").err()) {
        one!("ParserError", f, "Dead", &[]);
        for d in both!(e) { text(&d, "ParserError", "", &[])?; if words(&d) == ["ParserError", "Dead"] { return Err("a malformed frame is printed as a dead parser".to_string()); } n += 1; }
    }
    use http_box::util::{DecodeError as D, FieldError as F, QueryError as Q};
    one!("DecodeError", D::Byte(b), "Byte", &[b as u64]);
    one!("DecodeError", D::HexSequence(b), "HexSequence", &[b as u64]);
    one!("FieldError", F::Name(b), "Name", &[b as u64]);
    one!("FieldError", F::Value(b), "Value", &[b as u64]);
    one!("QueryError", Q::Name(b), "Name", &[b as u64]);
    one!("QueryError", Q::Value(b), "Value", &[b as u64]);
    let len = match k >> 8 { 0 => b as usize, 1 => 1 << (b & 63), 2 => usize::MAX - b as usize, _ => k.wrapping_mul(0x9E37_79B9_7F4A_7C15) as usize };
    for (s, v) in [(Success::Callback(len), "Callback"), (Success::Eos(len), "Eos"), (Success::Finished(len), "Finished")] {
        text(&format!("{:?}", s), "Success", v, &[len as u64])?;
        if format!("{}", s) != len.to_string() { return Err(format!("{:?} is displayed as \"{}\"", s, s)); }
        n += 2;
    }
    let v = len as u32;
    use http2::{ErrorCode as E, Flags, FrameFormat, FrameType as T, Setting as S};
    for (s, name) in [(S::HeaderTableSize(v), "HeaderTableSize"), (S::EnablePush(v), "EnablePush"), (S::MaxConcurrentStreams(v), "MaxConcurrentStreams"), (S::InitialWindowSize(v), "InitialWindowSize"), (S::MaxFrameSize(v), "MaxFrameSize"), (S::MaxHeaderListSize(v), "MaxHeaderListSize"), (S::Unsupported(v), "Unsupported")] {
        one!("Setting", s, name, &[v as u64]);
    }
    const TY: [&str; 11] = ["Data", "Headers", "Priority", "RstStream", "Settings", "PushPromise", "Ping", "GoAway", "WindowUpdate", "Continuation", "Unsupported"];
    let ty = TY[(b as usize).min(10)];
    one!("FrameType", T::from_u8(b), ty, &[]);
    const EC: [&str; 15] = ["NoError", "Protocol", "Internal", "FlowControl", "SettingsTimeout", "StreamClosed", "FrameSize", "RefusedStream", "Cancel", "Compression", "Connect", "EnhanceYourCalm", "InadequateSecurity", "Http11Required", "Unsupported"];
    one!("ErrorCode", E::from_u8(b), EC[(b as usize).min(14)], &[]);
    let flags = |d: &str| -> Result<(), String> {
        let w = words(d);
        for (name, m) in [("ack", 1), ("end_stream", 1), ("end_headers", 4), ("padded", 8), ("priority", 32)] {
            let i = match w.iter().position(|x| x == name) { Some(i) => i, None => return Err(format!("flags {:#04x} are printed as \"{}\": {} is missing", b, d, name)) };
            let want = (b & m != 0).to_string();
            if w.get(i + 1) != Some(&want) { return Err(format!("flags {:#04x} are printed as \"{}\": {} should be {}", b, d, name, want)); }
        }
        Ok(())
    };
    for d in both!(Flags::from_u8(b)) { text(&d, "Flags", "", &[])?; flags(&d)?; n += 1; }
    let (pl, sid) = (v & 0xFF_FFFF, (len >> 7) as u32 & 0x7FFF_FFFF);
    let t2 = (k >> 3) as u8;
    for d in both!(FrameFormat::new(pl, t2, b, sid)) {
        let w = words(&d);
        let after = |x: &str| w.iter().position(|y| y == x).and_then(|i| w.get(i + 1)).cloned().unwrap_or_default();
        flags(&d)?;
        if after("payload_length") != pl.to_string() || after("stream_id") != sid.to_string() || after("FrameType") != TY[(t2 as usize).min(10)] {
            return Err(format!("a frame of {} bytes, type {}, stream {} is printed as \"{}\"", pl, t2, sid, d));
        }
        n += 1;
    }
    Ok(n)
}

// ------------------------------------------------------------------------------------------------
// Equality
// ------------------------------------------------------------------------------------------------

/// `==` and `!=`, of the values and of their copies and clones, both ways round, agree with `same`.
macro_rules! cmp {
    ($a:expr, $b:expr, $same:expr, $what:expr, $n:expr) => {{
        let (a, b) = (&$a, &$b);
        let (ca, kb) = (*a, b.clone());
        let eq = [*a == *b, *b == *a, ca == *b, *a == kb];
        let ne = [*a != *b, *b != *a, ca != *b, *a != kb];
        $n += 8;
        if eq != [$same; 4] || ne != [!$same; 4] {
            return Err(format!("{}: {:?} and {:?} {}, but == of the values, exchanged, of a copy and of a clone says {:?}, and != says {:?}", $what, a, b, if $same { "are the same" } else { "differ" }, eq, ne));
        }
    }};
}

/// All values that differ in one thing, or in nothing, from the values of row `k`.
pub fn compared(k: u64) -> Result<u64, String> {
    let b = (k & 255) as u8;
    let mut n = 0;
    use http1::ParserError as P;
    macro_rules! all { ($c:expr; $($x:ident)*) => { [$(P::$x($c)),*] } }
    let errors = |c: u8| all!(c; ChunkExtensionName ChunkExtensionValue ChunkLength CrlfSequence HeaderName HeaderValue Method Multipart MultipartBoundary Status StatusCode Url UrlEncodedName UrlEncodedValue Version);
    let plain = [P::Dead, P::ChunkLengthOverflow];
    let mine = errors(b);
    for (i, x) in mine.iter().enumerate() {
        for c in 0..=255u8 {
            for (j, y) in errors(c).iter().enumerate() { cmp!(*x, *y, i == j && b == c, "errors", n); }
        }
        for y in &plain { cmp!(*x, *y, false, "errors", n); }
    }
    for (i, x) in plain.iter().enumerate() { for (j, y) in plain.iter().enumerate() { cmp!(*x, *y, i == j, "errors", n); } }

    // lengths: small ones, powers of two, and ones of a row
    let row = match k >> 8 { 0 => b as usize, 1 => 1usize << (b & 63), 2 => usize::MAX - b as usize, _ => k.wrapping_mul(0x9E37_79B9_7F4A_7C15) as usize };
    let mut lens: Vec<usize> = (0..300).chain((0..64).map(|i| 1 << i)).chain((0..64).map(|i| row ^ 1 << i)).chain([row, row.wrapping_add(1), row.wrapping_sub(1), row >> 1, row & 0xFFFF_FFFF, row & 0xFFFF, row & 255, usize::MAX]).collect();
    lens.sort_unstable();
    lens.dedup();
    let succ = |l: usize| [Success::Callback(l), Success::Eos(l), Success::Finished(l)];
    for &l in &lens {
        for (i, x) in succ(row).iter().enumerate() { for (j, y) in succ(l).iter().enumerate() { cmp!(*x, *y, i == j && row == l, "results", n); } }
    }

    use http2::{ErrorCode as E, Flags, FrameFormat, FrameType as T};
    for c in 0..=255u8 {
        cmp!(T::from_u8(b), T::from_u8(c), b.min(10) == c.min(10), "frame types", n);
        cmp!(E::from_u8(b), E::from_u8(c), b.min(14) == c.min(14), "error codes", n);
        cmp!(Flags::from_u8(b), Flags::from_u8(c), b == c, "flags", n);
    }

    // frame formats: those that differ in one bit of one field
    let (len, sid, ty) = (row as u32 & 0xFF_FFFF, (row >> 5) as u32 & 0x7FFF_FFFF, (k >> 4) as u8 % 10);
    let f = FrameFormat::new(len, ty, b, sid);
    cmp!(f, FrameFormat::new(len, ty, b, sid), true, "frame formats", n);
    for i in 0..24 { cmp!(f, FrameFormat::new(len ^ 1 << i, ty, b, sid), false, "frame formats", n); }
    for i in 0..8 { cmp!(f, FrameFormat::new(len, ty, b ^ 1 << i, sid), false, "frame formats", n); }
    for i in 0..31 { cmp!(f, FrameFormat::new(len, ty, b, sid ^ 1 << i), false, "frame formats", n); }
    for t in 0..=255 { if t != ty { cmp!(f, FrameFormat::new(len, t, b, sid), false, "frame formats", n); } }
    cmp!(f.flags(), Flags::from_u8(b), true, "flags of a frame format", n);
    cmp!(f.frame_type(), T::from_u8(ty), true, "type of a frame format", n);

    // the states of a message, in the order in which they are listed
    use http1::State as S;
    let st = [S::None, S::RequestMethod, S::RequestUrl, S::RequestVersion, S::ResponseVersion, S::ResponseStatusCode, S::ResponseStatus, S::HeaderName, S::HeaderValue, S::ChunkLength, S::ChunkExtensionName, S::ChunkExtensionValue, S::ChunkData, S::MultipartData, S::UrlEncodedName, S::UrlEncodedValue];
    for (i, x) in st.iter().enumerate() {
        for (j, y) in st.iter().enumerate() {
            let (cx, cy) = (*x, y.clone());
            n += 3;
            if (*x == *y) != (i == j) || (*x != *y) != (i != j) || (cx == cy) != (i == j) || (*x as u8).cmp(&(*y as u8)) != i.cmp(&j) { return Err(format!("State: the {}. and the {}. do not compare as such", i, j)); }
        }
    }
    Ok(n)
}

/// Results, errors and states of runs: equal exactly when they are printed alike.
pub fn compared_runs(cs: &[Case]) -> Result<u64, String> {
    let mut n = 0;
    macro_rules! pairs { ($v:expr, $what:expr) => {{
        let t: Vec<String> = $v.iter().map(|x| format!("{:?}", x)).collect();
        for (i, x) in $v.iter().enumerate() { for (j, y) in $v.iter().enumerate() { cmp!(*x, *y, t[i] == t[j], $what, n); } }
    }} }
    macro_rules! gather { ($p:expr, $c:expr, $states:expr, $results:expr, $errors:expr) => {{
        let mut h = crate::h1::handler($c);
        let mut at = 0;
        $states.push($p.state());
        for f in $c.frags.iter().cloned().chain([0]) {
            let end = (at + f).min($c.input.len());
            let mut guard = 0;
            loop {
                guard += 1;
                if guard > 100 { break; }
                let r = $p.resume(&mut h, &$c.input[at..end]);
                $states.push($p.state());
                match r {
                    Ok(s) => { $results.push(s); match s { Success::Callback(l) => at += l, Success::Eos(l) => { at += l; break } Success::Finished(_) => break } }
                    Err(e) => { $errors.push(e); break }
                }
                if at > end { break; }
            }
            if at != end { break; }
        }
        // texts once each are enough, with one more of each to be the same as
        macro_rules! thin { ($v:expr) => {{ let mut seen: Vec<(String, u8)> = vec![]; $v.retain(|x| { let t = format!("{:?}", x); match seen.iter_mut().find(|s| s.0 == t) { Some(s) => { s.1 += 1; s.1 <= 2 } None => { seen.push((t, 1)); true } } }); }} }
        thin!($states); thin!($results); thin!($errors);
    }} }
    let (mut s1, mut s2, mut res) = (vec![], vec![], vec![]);
    let (mut e1, mut e2) = (vec![], vec![]);
    for c in cs {
        if c.mode == Mode::H2 {
            let mut p = http2::Parser::new();
            gather!(p, c, s2, res, e2);
        } else {
            let mut p = http1::Parser::new();
            match c.mode {
                Mode::New | Mode::H2 => (),
                Mode::Head => p.init_head(),
                Mode::Chunked => p.init_chunked(),
                Mode::Multipart => { p.init_multipart(); p.set_boundary(&c.boundary); }
                Mode::Url => { p.init_url_encoded(); p.set_length(c.length); }
            }
            gather!(p, c, s1, res, e1);
        }
    }
    pairs!(s1, "HTTP/1 states");
    pairs!(s2, "HTTP/2 states");
    pairs!(res, "results");
    pairs!(e1, "HTTP/1 errors");
    pairs!(e2, "HTTP/2 errors");
    Ok(n)
}
