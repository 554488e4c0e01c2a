//! Equivalent encodings: two inputs that mean the same are reported alike (no model involved).

use crate::checks::dress;
use crate::checks::How;
use crate::engine::*;
use crate::ev::*;
use crate::h1::*;
use crate::h1gen as g;
use crate::h2;
use crate::rng::Rng;
use crate::ut::{self, UK};

/// How a header block ended: not yet, with the blank line, or with an error.
#[derive(Debug, PartialEq)]
enum End { Open, Done(usize), Bad(EK, u8, usize) }

/// The events of the header block that starts at byte `at`, and how it ended.
fn block(o: &Out, at: usize, skip: usize) -> Option<(Log, End)> {
    match &o.fin { Fin::Panic(_) | Fin::Broken => return None, _ => () }
    let mut l = Log::default();
    let mut done = false;
    for e in o.log.evs.iter().skip(skip) {
        if e.k == K::Headers { done = true; break; }
        if !matches!(e.k, K::HName | K::HVal) { break; }
        l.evs.push(e.clone());
    }
    let end = match &o.fin { _ if done => End::Done(0), Fin::Err(k, b) => End::Bad(*k, *b, o.off.wrapping_sub(at)), _ => End::Open };
    Some((l, end))
}

const PLACES: &[(Mode, &[u8], usize)] = &[
    (Mode::Head, b"GET / HTTP/1.1\r\n", 4), (Mode::Head, b"HTTP/1.1 200 OK\r\n", 4), (Mode::New, b"POST /x HTTP/1.0\r\n", 4), (Mode::Chunked, b"0\r\n", 3), (Mode::Chunked, b"1;a=b\r\nx\r\n0;c\r\n", 9), (Mode::Multipart, b"--b\r\n", 1), (Mode::Multipart, b"--b\r\na:b\r\n\r\nx\r\n--b\r\n", 6),
];

fn header_block(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    if r.chance(1, 30) {
        // the header lines of a long head
        let shape = *r.pick(&[3usize, 4, 5, 6, 8]);
        let n = size(r, 300) + 1;
        let c = g::long_at(r, Mode::Head, shape, n);
        let i = c.input.iter().position(|b| *b == b'\n').unwrap() + 1;
        v.extend(&c.input[i..]);
    } else {
        g::headers(r, 5, &mut v);
    }
    v.truncate(v.len() - 2);
    match r.below(4) {
        0 => g::mutate(r, &mut v),
        1 => { let k = r.below(v.len() + 1); v.truncate(k); }
        _ => (),
    }
    if r.bool() { v.extend(b"\r\n"); }
    v
}

pub fn w_places(n: u64) -> Wk {
    wk("header-block-in-every-place", n, |_, r, obs| {
        let hb = header_block(r);
        // without any header line the places differ, and what follows the block is not part of it
        if hb.is_empty() || hb[0] == b'\r' { obs.count("skipped_empty", 1); return Ok(()); }
        let mut first: Option<(Case, Log, End)> = None;
        for (mode, head, _) in PLACES {
            let mut c = Case::new(*mode, [*head, &hb[..]].concat());
            // the events in front of the block
            let mut p = Case::new(*mode, head.to_vec());
            p.frags = vec![1; head.len()];
            let skip = run(&p).log.evs.len();
            dress(&mut c, r, How::CutIntr);
            let o = run(&c);
            obs.out(&o);
            let (l, e) = match block(&o, head.len(), skip) { Some(x) => x, None => return Ok(()) };
            if let Some((c0, l0, e0)) = &first {
                let err = matches!(e, End::Bad(..));
                if e != *e0 { return Err(format!("the same header block ends with {:?} in one place and with {:?} in another | {:?} | {:?}", e0, e, c0, c)); }
                if cmp_events(&l, l0, err).is_some() && cmp_events(l0, &l, err).is_some() { return Err(format!("the same header block is reported as {:?} in one place and as {:?} in another | {:?} | {:?}", Evs(&l0.evs), Evs(&l.evs), c0, c)); }
            } else { obs.nontrivial(c.hash()); obs.sample(|| format!("{:?} {:?} | {:?}", Evs(&l.evs), e, c)); first = Some((c, l, e)); }
        }
        Ok(())
    })
}

/// Compare two inputs that mean the same, `same` drops what may differ.
fn alike(a: &Case, b: &Case, same: fn(&Log) -> Log, obs: &mut Obs) -> Result<(), String> {
    let (x, y) = (run(a), run(b));
    obs.out(&x);
    obs.out(&y);
    if let (Fin::Panic(_) | Fin::Broken, _) | (_, Fin::Panic(_) | Fin::Broken) = (&x.fin, &y.fin) { return Ok(()); }
    if x.ncb > 0 { obs.nontrivial(a.hash() ^ b.hash().rotate_left(1)); }
    obs.sample(|| format!("{:?} | {:?} -> {}", a, b, x.describe()));
    let e = |c: &str| Err(format!("{}: two encodings of the same message | {:?} -> {} | {:?} -> {}", c, a, x.describe(), b, y.describe()));
    let (ok, all) = (x.fin == Fin::Finished || x.fin == Fin::More, |c: &Case, o: &Out| o.off == c.input.len());
    if x.fin != y.fin { return e("the results differ"); }
    if ok && all(a, &x) != all(b, &y) { return e("the lengths differ"); }
    if ok && same(&x.log) != same(&y.log) { return e("the events differ"); }
    Ok(())
}
fn id(l: &Log) -> Log { l.clone() }

/// Mostly small, now and then around a power of two.
fn size(r: &mut Rng, small: usize) -> usize {
    match r.below(60) { 0 => { let t = *r.pick(&[8usize, 10, 12, 14, 16]); g::edge_len(r, t) } 1 | 2 => r.below(2000), _ => r.below(small) }
}

/// letter case of header names, extension names and hexadecimal digits
pub fn w_case(n: u64) -> Wk {
    wk("letter-case", n, |_, r, obs| {
        let (a, b) = match r.below(3) {
            0 => {
                let (mut v, mut w) = (vec![], vec![]);
                let (mode, head, _) = r.pick(PLACES);
                v.extend(*head);
                w.extend(*head);
                for _ in 0..r.range(1, 4) {
                    let n = if r.chance(1, 20) { let k = size(r, 300) + 1; g::token(r, k) } else { g::header_name(r) };
                    v.extend(&n);
                    w.extend(n.iter().map(|b| if r.bool() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }));
                    let mut x = b": ".to_vec();
                    if r.bool() { x.extend(g::token(r, 6)); } else { let q = g::quoted(r, 6); x.extend(q); }
                    x.extend(b"\r\n");
                    v.extend(&x);
                    w.extend(&x);
                }
                for z in [&mut v, &mut w] { z.extend(b"\r\n"); if *mode == Mode::Multipart { z.extend(b"d\r\n--b--"); } }
                (Case::new(*mode, v), Case::new(*mode, w))
            }
            1 => {
                let (mut v, mut w) = (vec![], vec![]);
                for i in 0..r.range(1, 3) {
                    let n = if r.chance(1, 3) { 1 + size(r, 300) } else { *r.pick(&[1usize, 9, 10, 11, 12, 13, 14, 15, 16, 26, 31, 171, 175]) };
                    let x = format!("{:x}", n);
                    v.extend(x.as_bytes());
                    w.extend(vec![b'0'; r.below(9 - x.len())]);
                    w.extend(x.bytes().map(|b| if r.bool() { b.to_ascii_uppercase() } else { b }));
                    if r.bool() { let t = g::token(r, 5); v.extend(b";"); v.extend(&t); w.extend(b";"); w.extend(t.iter().map(|b| if r.bool() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() })); }
                    let mut d = b"\r\n".to_vec();
                    d.extend(g::payload(r, n));
                    d.extend(b"\r\n");
                    v.extend(&d);
                    w.extend(&d);
                    if i == 0 && r.bool() { break; }
                }
                v.extend(b"0\r\n\r\n");
                w.extend(vec![b'0'; r.range(1, 8)]);
                w.extend(b"\r\n\r\n");
                (Case::new(Mode::Chunked, v), Case::new(Mode::Chunked, w))
            }
            _ => {
                // the same pairs with other escapes
                let (mut v, mut w) = (vec![], vec![]);
                for i in 0..r.range(1, 4) {
                    if i > 0 { v.push(b'&'); w.push(if r.bool() { b';' } else { b'&' }); }
                    for k in 0..r.range(1, 2) {
                        if k == 1 { v.push(b'='); w.push(b'='); }
                        for j in 0..r.range(1, 5) {
                            let x = if r.bool() { b'a' + r.below(26) as u8 } else { r.u8() };
                            let plain = x.is_ascii_alphanumeric();
                            let enc = |r: &mut Rng, o: &mut Vec<u8>, first: bool| {
                                if plain && r.bool() { o.push(x); }
                                else if x == b' ' && !first && r.bool() { o.push(b'+'); }
                                else { o.push(b'%'); for h in format!("{:02x}", x).bytes() { o.push(if r.bool() { h.to_ascii_uppercase() } else { h }); } }
                            };
                            enc(r, &mut v, k + j == 0);
                            enc(r, &mut w, k + j == 0);
                        }
                    }
                }
                (Case::new(Mode::Url, v), Case::new(Mode::Url, w))
            }
        };
        let (mut a, mut b) = (a, b);
        dress(&mut a, r, How::Cut);
        dress(&mut b, r, How::Cut);
        alike(&a, &b, id, obs)
    })
}

fn joined(l: &Log) -> Log {
    let mut o = Log::default();
    for e in &l.evs { match e.k { K::ChunkBegin | K::ChunkLen | K::ExtsFin => (), k if k.is_data() => o.data(k, &e.d), k => o.ev(k, e.a) } }
    o
}

/// the same data in chunks of other sizes
pub fn w_rechunk(n: u64) -> Wk {
    wk("other-chunks", n, |_, r, obs| {
        let n = size(r, 60);
        let d = g::payload(r, n);
        let mut tail = b"0\r\n".to_vec();
        if r.bool() { g::headers(r, 3, &mut tail); } else { tail.extend(b"\r\n"); }
        let mut one = |r: &mut Rng| {
            let mut v = vec![];
            let mut i = 0;
            while i < d.len() { let k = (1 + r.below(d.len() - i)).min(if d.len() > 5000 { 4000 } else if r.bool() { 4 } else { 999 }); v.extend(format!("{:X}\r\n", k).bytes()); v.extend(&d[i..i + k]); v.extend(b"\r\n"); i += k; }
            v.extend(&tail);
            let mut c = Case::new(Mode::Chunked, v);
            dress(&mut c, r, How::CutIntr);
            c
        };
        let (a, b) = (one(r), one(r));
        alike(&a, &b, joined, obs)
    })
}

/// the same parts with their length known and unknown, and under another boundary
pub fn w_reboundary(n: u64) -> Wk {
    wk("other-boundaries", n, |_, r, obs| {
        let parts: Vec<(Vec<u8>, Vec<u8>)> = (0..r.range(1, 3)).map(|_| {
            let mut h = vec![];
            if r.bool() { g::headers(r, 2, &mut h); h.truncate(h.len() - 2); }
            if h.is_empty() { h.extend(b"a: b\r\n"); }
            let n = size(r, 30);
            let d = (0..n).map(|_| *r.pick(b"ab-\r\n-- xyz\x00\xff")).collect::<Vec<u8>>();
            (h, d)
        }).collect();
        let one = |bd: &[u8], known: bool, r: &mut Rng| {
            let mut v = vec![];
            for (h, d) in &parts {
                if !v.is_empty() { v.extend(b"\r\n"); }
                v.extend(b"--"); v.extend(bd); v.extend(b"\r\n"); v.extend(h); v.extend(b"\r\n"); v.extend(d);
            }
            v.extend(b"\r\n--"); v.extend(bd); v.extend(b"--");
            let mut c = Case::new(Mode::Multipart, v);
            c.boundary = bd.to_vec();
            c.cls = if known { parts.iter().map(|p| Some(p.1.len())).collect() } else { vec![None] };
            dress(&mut c, r, How::CutIntr);
            c
        };
        // neither occurs within the data
        let a = one(b"Q", r.bool(), r);
        let n = (1 + size(r, 40)).min(16_000);
        let bd: Vec<u8> = (0..n).map(|i| if i == 0 { b'W' } else { *r.pick(b"-abW0") }).collect();
        let b = one(&bd, r.bool(), r);
        alike(&a, &b, id, obs)
    })
}

/// padding, and priority flags on other frame types, are not part of what frames carry
fn unpadded(l: &Log) -> Log {
    let mut o = Log::default();
    for e in &l.evs { match e.k { K::Frame => o.ev(K::Frame, [0, e.a[1], e.a[2] & !8, e.a[3]]), k if k.is_data() => o.data(k, &e.d), k => o.ev(k, e.a) } }
    o
}
pub fn w_padding(n: u64) -> Wk {
    wk("other-padding", n, |_, r, obs| {
        let fs: Vec<(u8, u8, u32, Vec<u8>)> = (0..r.range(1, 4)).map(|_| {
            let ty = *r.pick(&[h2::DATA, h2::HEADERS, h2::PUSH]);
            let fl = h2::flags(r) & !8;
            let n = size(r, 40) + if ty == h2::PUSH { 4 } else { 0 } + if ty == h2::HEADERS && fl & 32 != 0 { 5 } else { 0 };
            (ty, fl, r.u32() & 0x7FFF_FFFF, (0..n).map(|_| r.u8()).collect())
        }).collect();
        let one = |r: &mut Rng| {
            let mut v = vec![];
            for (ty, fl, sid, p) in &fs {
                if r.bool() { h2::put(&mut v, *ty, *fl, *sid, p); continue; }
                let k = match r.below(4) { 0 => 0, 1 => 255, _ => r.below(20) };
                let mut q = vec![k as u8];
                q.extend(p);
                q.extend((0..k).map(|_| r.u8()));
                h2::put(&mut v, *ty, *fl | 8, *sid, &q);
            }
            let mut c = Case::new(Mode::H2, v);
            dress(&mut c, r, How::CutIntr);
            c
        };
        let (a, b) = (one(r), one(r));
        alike(&a, &b, unpadded, obs)
    })
}

/// optional white space in any mix of spaces and tabs
pub fn w_space(n: u64) -> Wk {
    wk("white-space", n, |_, r, obs| {
        let chunked = r.bool();
        let mode = if chunked { Mode::Chunked } else { r.pick(PLACES).0 };
        // None where white space is optional, an empty piece where a line is continued
        let mut t: Vec<Option<Vec<u8>>> = vec![];
        let mut put = |v: &[u8]| t.push(Some(v.to_vec()));
        if chunked {
            put(b"1");
            for _ in 0..r.range(1, 4) {
                put(b";");
                put(b"?");
                put(&g::token(r, 6));
                if r.chance(1, 3) { continue; }
                put(b"=");
                put(b"?");
                let v = if r.bool() { g::token(r, 6) } else { g::quoted(r, 6) };
                put(&v);
            }
            put(b"\r\nx\r\n0\r\n\r\n");
        } else {
            put(r.pick(&PLACES.iter().filter(|p| p.0 == mode).collect::<Vec<_>>()).1);
            for _ in 0..r.range(1, 4) {
                put(&g::header_name(r));
                put(b":");
                put(b"?");
                for i in 0..r.range(1, 4) {
                    if i > 0 { put(b"\r\n"); put(b""); }
                    if r.chance(1, 3) { put(&g::quoted(r, 6)); } else if r.chance(3, 4) { put(&g::token(r, 6)); }
                }
                put(b"\r\n");
            }
            put(b"\r\n");
            if mode == Mode::Multipart { put(b"d\r\n--b--"); }
        }
        for x in t.iter_mut() { if x.as_deref() == Some(b"?") { *x = None; } }
        let one = |r: &mut Rng| {
            let mut v = vec![];
            for x in &t {
                match x {
                    None => { let k = if r.chance(1, 60) { size(r, 60) } else { r.below(4) }; v.extend((0..k).map(|_| *r.pick(b" \t"))); }
                    Some(x) if x.is_empty() => v.push(*r.pick(b" \t")),
                    Some(x) => v.extend(x),
                }
            }
            let mut c = Case::new(mode, v);
            dress(&mut c, r, How::CutIntr);
            c
        };
        let (a, b) = (one(r), one(r));
        alike(&a, &b, id, obs)
    })
}

/// one text for the body parser and for the utilities
pub fn w_text(n: u64) -> Wk {
    wk("body-query-and-decoder", n, |_, r, obs| {
        let mut s = if r.chance(1, 60) { ut::long(r, UK::Query) } else if r.bool() { g::url_encoded(r) } else { ut::any(r, UK::Query) };
        if r.chance(1, 4) { g::mutate(r, &mut s); }
        let c = Case::new(Mode::Url, s.clone());
        let o = run(&c);
        obs.out(&o);
        if let Fin::Panic(_) | Fin::Broken = o.fin { return Ok(()); }
        let q = ut::sut(UK::Query, &s);
        if q.bad.is_some() { return Ok(()); }
        if o.fin == Fin::Finished && q.err.is_none() && !s.is_empty() {
            // pairs without a name are only possible in one of them
            let mut pairs: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
            for e in &o.log.evs { match e.k { K::UrlBegin => pairs.push((vec![], None)), K::UName => if let Some(p) = pairs.last_mut() { p.0.extend(&e.d); }, K::UVal => if let Some(p) = pairs.last_mut() { p.1.get_or_insert(vec![]).extend(&e.d); }, _ => () } }
            let norm = |v: &[(Vec<u8>, Option<Vec<u8>>)]| -> Vec<(Vec<u8>, Vec<u8>)> { v.iter().map(|p| (p.0.clone(), p.1.clone().unwrap_or_default())).filter(|p| p.0.len() + p.1.len() > 0).collect() };
            obs.count("agreements_of_body_and_query", 1);
            obs.nontrivial(c.hash());
            obs.sample(|| format!("{:?} -> {:?}", c, ut::Items(&q.items)));
            if norm(&pairs) != norm(&q.items) { return Err(format!("the body parser reports {:?}, the query iterator {:?} | \"{}\"", ut::Items(&pairs), ut::Items(&q.items), show(&s))); }
        }
        if !s.iter().any(|b| b"&;=".contains(b)) && !s.is_empty() {
            let d = ut::sut(UK::Decode, &s);
            if d.bad.is_some() { return Ok(()); }
            if d.err.is_none() != q.err.is_none() { return Err(format!("decode() reports {:?}, the query iterator {:?} | \"{}\"", d.err, q.err, show(&s))); }
            if d.err.is_none() {
                obs.count("agreements_of_decode_and_query", 1);
                if q.items.len() != 1 || q.items[0].0 != d.items[0].0 || q.items[0].1.is_some() { return Err(format!("decode() returns {:?}, the query iterator {:?} | \"{}\"", ut::Items(&d.items), ut::Items(&q.items), show(&s))); }
            }
        }
        Ok(())
    })
}

/// parameters under another delimiter, and with other white space
pub fn w_delims(n: u64) -> Wk {
    wk("other-delimiters", n, |_, r, obs| {
        let norm = r.bool();
        let items: Vec<(Vec<u8>, Option<Vec<u8>>)> = (0..r.range(1, 4)).map(|_| {
            let k = 1 + size(r, 6);
            let n = loop { let t = if k > 6 { (0..k).map(|_| *r.pick(b"abcXYZ09-_.")).collect() } else { g::token(r, 6) }; if !t.iter().any(|b| b"|!&~".contains(b)) { break t; } };
            let v = match r.below(3) { 0 => None, 1 => Some(loop { let t = g::token(r, 6); if !t.iter().any(|b| b"|!&~".contains(b)) { break t; } }), _ => { let n = r.range(0, 6); let mut q = vec![b'"']; q.extend((0..n).map(|_| *r.pick(b"ab C;,=|!/"))); q.push(b'"'); Some(q) } };
            (n, v)
        }).collect();
        let one = |d: u8, r: &mut Rng| {
            let mut s = vec![];
            for (i, (n, v)) in items.iter().enumerate() {
                if i > 0 { s.push(d); }
                for _ in 0..r.below(3) { s.push(*r.pick(b" \t")); }
                s.extend(n);
                if let Some(v) = v { s.push(b'='); for _ in 0..r.below(2) { s.push(b' '); } s.extend(v); if v[0] == b'"' { for _ in 0..r.below(3) { s.push(b' '); } } }
            }
            s
        };
        let (d, e) = (*r.pick(b";,|!&~"), *r.pick(b";,|!&~"));
        let (s, t) = (one(d, r), one(e, r));
        let (x, y) = (ut::sut(UK::Field { delim: d, norm }, &s), ut::sut(UK::Field { delim: e, norm }, &t));
        obs.runs += 2;
        obs.nontrivial(crate::rng::hash_bytes(d as u64, &s));
        if x.bad.is_some() || y.bad.is_some() { return Ok(()); }
        if x.err != y.err || x.items != y.items { return Err(format!("\"{}\" yields {:?} {:?}, \"{}\" yields {:?} {:?}", show(&s), ut::Items(&x.items), x.err, show(&t), ut::Items(&y.items), y.err)); }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------
// Elements one after another
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
struct Kind { mode: Mode, pre: &'static [u8], sep: &'static [u8], post: &'static [u8] }
const KINDS: &[Kind] = &[
    Kind { mode: Mode::Head, pre: b"GET / HTTP/1.1\r\n", sep: b"", post: b"\r\n" },
    Kind { mode: Mode::Head, pre: b"HTTP/1.0 404 Not Found\r\n", sep: b"", post: b"\r\n" },
    Kind { mode: Mode::Chunked, pre: b"0\r\n", sep: b"", post: b"\r\n" },
    Kind { mode: Mode::Chunked, pre: b"", sep: b"", post: b"0\r\n\r\n" },
    Kind { mode: Mode::Multipart, pre: b"", sep: b"", post: b"--b--" },
    Kind { mode: Mode::Multipart, pre: b"--b\r\n", sep: b"", post: b"\r\n--b--" },
    Kind { mode: Mode::Url, pre: b"", sep: b"&", post: b"" },
    Kind { mode: Mode::H2, pre: b"", sep: b"", post: b"" },
];

fn element(r: &mut Rng, i: usize) -> Vec<u8> {
    let mut v = vec![];
    match i {
        0 | 1 | 2 | 5 => { v.extend(g::header_name(r)); v.push(b':'); g::header_value(r, &mut v); v.extend(b"\r\n"); }
        3 => {
            let n = match r.below(4) { 0 => 1, 1 => r.range(1, 8), 2 => *r.pick(&[15usize, 16, 17, 255, 256, 257]), _ => r.range(9, 40) };
            v.extend(vec![b'0'; r.below(3)]);
            v.extend(if r.bool() { format!("{:x}", n) } else { format!("{:X}", n) }.bytes());
            g::extensions(r, &mut v);
            v.extend(b"\r\n");
            v.extend(g::payload(r, n));
            v.extend(b"\r\n");
        }
        4 => { v.extend(b"--b\r\n"); g::headers(r, 2, &mut v); let n = r.below(20); v.extend(g::near_data(r, b"b", n)); v.extend(b"\r\n"); }
        6 => { v = if r.bool() { g::url_encoded(r) } else { let mut o = vec![]; let t = g::payload(r, 3); ut::encode(r, &t, b"", &mut o); o } }
        _ => h2::frame(r, false, &mut v),
    }
    if i != 7 && i != 3 && r.chance(1, 6) { g::mutate(r, &mut v); }
    v
}

/// The bytes of whole frames?
fn whole_frames(v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() {
        if v.len() - i < 9 { return false; }
        i += 9 + ((v[i] as usize) << 16 | (v[i + 1] as usize) << 8 | v[i + 2] as usize);
    }
    i == v.len()
}

/// A message of several elements is reported as the elements are when each is alone.
pub fn w_elements(n: u64) -> Wk {
    wk("elements-one-after-another", n, |k, r, obs| {
        let i = r.below(KINDS.len());
        let kd = KINDS[i];
        let many = k % 50 == 0;
        let m = if k % 40_000 == 0 { 65_530 + r.below(80) } else if many { r.range(60, 400) } else { r.range(2, 6) };
        // few different ones, so that each can be run alone
        let mut pool: Vec<(Vec<u8>, Vec<Ev>)> = vec![];
        let (mut lead, mut tail): (Option<usize>, Option<usize>) = (None, None);
        for _ in 0..r.range(1, 5) {
            let el = element(r, i);
            if el.is_empty() || (i == 7 && !whole_frames(&el)) || (i == 4 && !el.starts_with(b"--b\r\n")) || (i == 5 && el.windows(4).any(|w| w == b"\r\n\r\n")) || (i == 6 && b"&;".contains(el.last().unwrap())) { continue; }
            let c = Case::new(kd.mode, [kd.pre, &el, kd.post].concat());
            let o = run(&c);
            if o.off != c.input.len() || o.fin != if kd.mode == Mode::H2 { Fin::More } else { Fin::Finished } { obs.count("elements_not_well_formed", 1); continue; }
            if lead.is_none() {
                let mut p = Case::new(kd.mode, kd.pre.to_vec());
                if kd.mode == Mode::Url || kd.mode == Mode::H2 { lead = Some(0); } else { p.frags = vec![1; kd.pre.len()]; lead = Some(run(&p).log.evs.len()); }
                tail = Some(match i { 3 => run(&Case::new(kd.mode, kd.post.to_vec())).log.evs.len(), 0 | 1 => 1, 2 => o.log.evs.iter().rev().take_while(|e| !matches!(e.k, K::HName | K::HVal)).count(), 5 => o.log.evs.iter().rev().take_while(|e| !matches!(e.k, K::HName | K::HVal)).count(), 7 => 0, _ => 1 });
            }
            let e = &o.log.evs;
            let (a, b) = (lead.unwrap(), tail.unwrap());
            if e.len() < a + b { continue; }
            pool.push((el, e[a..e.len() - b].to_vec()));
        }
        if pool.is_empty() { obs.count("skipped_no_element", 1); return Ok(()); }
        let mut input = kd.pre.to_vec();
        let mut want: Vec<Ev> = vec![];
        for j in 0..m {
            let (el, ev) = r.pick(&pool);
            if j > 0 { input.extend(kd.sep); }
            input.extend(el);
            want.extend(ev.iter().cloned());
        }
        input.extend(kd.post);
        let mut c = Case::new(kd.mode, input);
        dress(&mut c, r, How::CutIntr);
        let o = run(&c);
        obs.out(&o);
        obs.count("elements", m as u64);
        if let Fin::Panic(_) | Fin::Broken = o.fin { return Ok(()); }
        obs.nontrivial(c.hash());
        obs.sample(|| format!("{} elements: {:?} -> {}", m, c, o.describe()));
        let fin = if kd.mode == Mode::H2 { Fin::More } else { Fin::Finished };
        if o.fin != fin || o.off != c.input.len() { return Err(format!("a message of {} elements, each of which is well-formed alone, ends with {:?} after {} of {} bytes | {:?} | {}", m, o.fin, o.off, c.input.len(), c, o.describe())); }
        let (a, b) = (lead.unwrap(), tail.unwrap());
        let got = if o.log.evs.len() < a + b { &o.log.evs[..0] } else { &o.log.evs[a..o.log.evs.len() - b] };
        for (j, w) in want.iter().enumerate() {
            if got.get(j) != Some(w) { return Err(format!("event {} of a message of {} elements is {:?}, when its element is alone it is {:?} | {:?}", j, m, got.get(j), w, c)); }
        }
        if got.len() > want.len() { return Err(format!("a message of {} elements leads to the further event {:?} | {:?}", m, got[want.len()], c)); }
        Ok(())
    })
}
