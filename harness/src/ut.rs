//! Utilities: reference models of decode(), QueryIterator and FieldIterator, and workloads.

use crate::ev::show;
use crate::h1::{is_field, is_qfield, is_token, is_vis};
use crate::rng::Rng;
use http_box::util::{decode, DecodeError, FieldError, FieldIterator, QueryError, QueryIterator};
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum UK { Decode, Query, Field { delim: u8, norm: bool } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum UE { Byte(u8), Hex(u8), Name(u8), Value(u8) }

pub type Item = (Vec<u8>, Option<Vec<u8>>);

/// What an iteration (or a decode() call, as one item) delivered.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct URes { pub items: Vec<Item>, pub err: Option<UE>, pub bad: Option<String>, pub bad_utf8: Option<Vec<u8>> }

/// Expected: `err` lists the acceptable errors (more than one when an element is wrong in two ways).
#[derive(Clone, PartialEq, Debug, Default)]
pub struct UModel { pub items: Vec<Item>, pub err: Vec<UE>, pub loose_last: bool }

fn hv(b: u8) -> Option<u8> { (b as char).to_digit(16).map(|x| x as u8) }

fn utf8_err(v: &[u8]) -> Option<u8> { std::str::from_utf8(v).err().map(|e| v[e.valid_up_to()]) }

/// One escape at `i` (which is a percent sign): the byte and the next index, or the offending byte.
fn escape(s: &[u8], i: usize) -> Result<(u8, usize), u8> {
    match (s.get(i + 1), s.get(i + 2)) {
        (None, _) => Err(b'%'),
        (Some(&a), None) => Err(a),
        (Some(&a), Some(&b)) => match (hv(a), hv(b)) {
            (Some(x), Some(y)) => Ok((x << 4 | y, i + 3)),
            (None, _) => Err(a),
            (_, None) => Err(b),
        },
    }
}

pub fn model(k: UK, s: &[u8]) -> UModel {
    match k { UK::Decode => m_decode(s), UK::Query => m_query(s), UK::Field { delim, norm } => m_field(s, delim, norm) }
}

fn m_decode(s: &[u8]) -> UModel {
    let mut out = vec![];
    let mut m = UModel::default();
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b'+' => { out.push(b' '); i += 1; }
            b'%' => match escape(s, i) { Ok((b, n)) => { out.push(b); i = n; } Err(b) => { m.err.push(UE::Hex(b)); break; } },
            b if is_vis(b) => { out.push(b); i += 1; }
            b => { m.err.push(UE::Byte(b)); break; }
        }
    }
    if let Some(b) = utf8_err(&out) {
        // an incomplete sequence in front of a wrong byte could become complete, but not with these bytes
        m.err.push(UE::Byte(b));
    }
    if m.err.is_empty() { m.items.push((out, None)); }
    m
}

/// Name and value are complete: either an item or a UTF-8 error.
fn submit(m: &mut UModel, n: &[u8], v: Option<&[u8]>) -> bool {
    if let Some(b) = utf8_err(n) { m.err.push(UE::Name(b)); }
    if let Some(v) = v { if let Some(b) = utf8_err(v) { m.err.push(UE::Value(b)); } }
    if !m.err.is_empty() { return false; }
    m.items.push((n.to_vec(), v.map(|x| x.to_vec())));
    true
}

fn m_query(s: &[u8]) -> UModel {
    let mut m = UModel::default();
    let mut i = 0;
    'items: while i < s.len() {
        let (mut n, mut v): (Vec<u8>, Option<Vec<u8>>) = (vec![], None);
        let first = i == 0;
        loop {
            let cur_is_name = v.is_none();
            let e = |b| if cur_is_name { UE::Name(b) } else { UE::Value(b) };
            let fail = |m: &mut UModel, b: u8, n: &[u8], v: Option<&[u8]>| {
                m.err.push(e(b));
                if let Some(x) = utf8_err(n) { m.err.push(UE::Name(x)); }
                if let Some(v) = v { if let Some(x) = utf8_err(v) { m.err.push(UE::Value(x)); } }
            };
            if i == s.len() { submit(&mut m, &n, v.as_deref()); break 'items; }
            let b = s[i];
            if first && i == 0 && b"=&;".contains(&b) { m.err.push(UE::Name(b)); break 'items; }
            match b {
                b'&' | b';' => { i += 1; if !submit(&mut m, &n, v.as_deref()) { break 'items; } continue 'items; }
                b'=' if cur_is_name => { i += 1; v = Some(vec![]); }
                b'%' => match escape(s, i) {
                    Ok((x, k)) => { v.as_mut().unwrap_or(&mut n).push(x); i = k; }
                    Err(x) => { fail(&mut m, x, &n, v.as_deref()); break 'items; }
                },
                b'+' => { v.as_mut().unwrap_or(&mut n).push(b' '); i += 1; }
                b if is_vis(b) => { v.as_mut().unwrap_or(&mut n).push(b); i += 1; }
                b => { fail(&mut m, b, &n, v.as_deref()); break 'items; }
            }
        }
    }
    m
}

fn m_field(s: &[u8], delim: u8, norm: bool) -> UModel {
    let mut m = UModel::default();
    let mut i = 0;
    let sp = |i: &mut usize| while *i < s.len() && (s[*i] == b' ' || s[*i] == b'\t') { *i += 1; };
    'items: loop {
        sp(&mut i);
        if i == s.len() { break; }
        let mut n = vec![];
        // name
        loop {
            if i == s.len() { submit(&mut m, &n, None); break 'items; }
            let b = s[i];
            i += 1;
            if b == b'=' { break; }
            if b == b'/' { n.push(b); continue; }
            if b == delim { if !submit(&mut m, &n, None) { break 'items; } continue 'items; }
            if !is_token(b) { m.err.push(UE::Name(b)); break 'items; }
            n.push(if norm { b.to_ascii_lowercase() } else { b });
        }
        sp(&mut i);
        if i == s.len() { submit(&mut m, &n, None); m.loose_last = true; break; }
        let mut v = vec![];
        let fail = |m: &mut UModel, b: u8, v: &[u8]| { m.err.push(UE::Value(b)); if let Some(x) = utf8_err(v) { m.err.push(UE::Value(x)); } };
        if s[i] == b'"' {
            i += 1;
            loop {
                if i == s.len() { fail(&mut m, s[i - 1], &v); break 'items; }
                let b = s[i];
                i += 1;
                if b == b'"' { break; }
                if b == b'\\' {
                    if i == s.len() { fail(&mut m, b, &v); break 'items; }
                    v.push(s[i]);
                    i += 1;
                    continue;
                }
                if !is_qfield(b) { fail(&mut m, b, &v); break 'items; }
                v.push(b);
            }
            sp(&mut i);
            if i == s.len() { submit(&mut m, &n, Some(&v)); break; }
            let b = s[i];
            i += 1;
            if b != delim { fail(&mut m, b, &v); break; }
            if !submit(&mut m, &n, Some(&v)) { break; }
        } else {
            loop {
                if i == s.len() { submit(&mut m, &n, Some(&v)); break 'items; }
                let b = s[i];
                i += 1;
                if b == delim { if !submit(&mut m, &n, Some(&v)) { break 'items; } continue 'items; }
                if !is_field(b) { fail(&mut m, b, &v); break 'items; }
                v.push(b);
            }
        }
    }
    m
}

/// Two error callbacks, the second one set after some items: it replaces the first.
macro_rules! replaced {
    ($it:expr, $E:ident, $s:expr, $r:expr) => {{
        let (a, b) = (RefCell::new(vec![]), RefCell::new(vec![]));
        let mut items: Vec<Item> = vec![];
        let mut early = false;
        let k = ($s.len() + $s.first().copied().unwrap_or(0) as usize) % 3;
        {
            let mut it = $it;
            it.on_error(|e| a.borrow_mut().push(match e { $E::Name(b) => UE::Name(b), $E::Value(b) => UE::Value(b) }));
            for _ in 0..k { match it.next() { Some((n, v)) => items.push((n.into_bytes(), v.map(|x| x.into_bytes()))), None => { early = true; break; } } }
            it.on_error(|e| b.borrow_mut().push(match e { $E::Name(b) => UE::Name(b), $E::Value(b) => UE::Value(b) }));
            while let Some((n, v)) = it.next() {
                items.push((n.into_bytes(), v.map(|x| x.into_bytes())));
                if items.len() > $s.len() + 4 { break; }
            }
        }
        let want: Vec<UE> = $r.err.into_iter().collect();
        let (a, b) = (a.into_inner(), b.into_inner());
        let (x, y) = if early { (&want[..], &[][..]) } else { (&[][..], &want[..]) };
        if items != $r.items { $r.bad = Some(format!("with another error callback set after {} items the iteration yields {:?}", k, Items(&items))); }
        else if a != x || b != y { $r.bad = Some(format!("the error callback is replaced after {} items, the first one got {:?}, the second one {:?}, the error is {:?}", k, a, b, $r.err)); }
    }}
}

/// However an iterator is driven, it yields the same items and reports the same error.
macro_rules! driven {
    ($it:expr, $E:ident, $s:expr, $r:expr) => {{
        let want: Vec<UE> = $r.err.into_iter().collect();
        let all = &$r.items;
        let h = $s.iter().fold($s.len() as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01B3));
        let (k, w) = ((h >> 9) as usize % (all.len() + 2), (h >> 5) % 8);
        let errs = RefCell::new(vec![]);
        let bytes = |x: (String, Option<String>)| (x.0.into_bytes(), x.1.map(|v| v.into_bytes()));
        let (got, exp): (Vec<Item>, Vec<Item>) = {
            let mut it = $it;
            it.on_error(|e| errs.borrow_mut().push(match e { $E::Name(b) => UE::Name(b), $E::Value(b) => UE::Value(b) }));
            match w {
                0 => { let mut v: Vec<Item> = it.nth(k).map(bytes).into_iter().collect(); let e = all.iter().skip(k); if v.is_empty() && k < all.len() { v.push((b"nothing".to_vec(), None)); } v.extend(it.map(bytes)); (v, e.cloned().collect()) }
                1 => { let n = it.count(); (vec![(n.to_string().into_bytes(), None)], vec![(all.len().to_string().into_bytes(), None)]) }
                2 => (it.last().map(bytes).into_iter().collect(), all.last().cloned().into_iter().collect()),
                3 => (it.skip(k).step_by(2).map(bytes).collect(), all.iter().skip(k).step_by(2).cloned().collect()),
                4 => { let mut v: Vec<Item> = it.by_ref().take(k).map(bytes).collect(); v.extend(it.by_ref().map(bytes)); (v, all.clone()) }
                5 => (it.fold(vec![], |mut v, x| { v.push(bytes(x)); v }), all.clone()),
                6 => { let mut v = vec![]; it.for_each(|x| v.push(bytes(x))); (v, all.clone()) }
                // the number of items left is between the bounds at every step
                _ => {
                    let mut v = vec![];
                    loop {
                        let (lo, hi) = it.size_hint();
                        let left = all.len() - v.len().min(all.len());
                        if lo > left || hi.map_or(false, |x| x < left) { v.push((format!("size_hint() is {:?}, {} items follow", (lo, hi), left).into_bytes(), None)); break; }
                        match it.next() { Some(x) => v.push(bytes(x)), None => break }
                        if v.len() > $s.len() + 4 { break; }
                    }
                    (v, all.clone())
                }
            }
        };
        let errs = errs.into_inner();
        const HOW: [&str; 8] = ["nth", "count", "last", "skip and step_by", "by_ref and take", "fold", "for_each", "size_hint and next"];
        if got != exp { $r.bad = Some(format!("driven by {} ({}) the iteration yields {:?}, expected {:?}", HOW[w as usize], k, Items(&got), Items(&exp))); }
        else if errs != want { $r.bad = Some(format!("driven by {} ({}) the iteration reports {:?}, expected {:?}", HOW[w as usize], k, errs, want)); }
    }}
}

/// The real code. Every String is checked to be UTF-8; after the end three more calls are made.
pub fn sut(k: UK, s: &[u8]) -> URes {
    match crate::engine::catch(|| sut_raw(k, s)) { Ok(r) => r, Err(m) => URes { bad: Some(format!("panic: {}", m)), ..URes::default() } }
}

fn sut_raw(k: UK, s: &[u8]) -> URes {
    // half of them begin anywhere, not where allocations do
    let x = s.iter().take(16).fold(s.len(), |a, b| a.wrapping_mul(31).wrapping_add(*b as usize));
    let pad = if x & 1 == 1 { x >> 1 & 15 } else { 0 };
    let mut v = Vec::with_capacity(pad + s.len());
    v.resize(pad, b'.');
    v.extend(s);
    let whole: Box<[u8]> = v.into();
    let s = &whole[pad..];
    let mut r = URes::default();
    match k {
        UK::Decode => match decode(s) {
            Ok(x) => { note(&mut r, x.as_bytes()); r.items.push((x.into_bytes(), None)); }
            Err(DecodeError::Byte(b)) => r.err = Some(UE::Byte(b)),
            Err(DecodeError::HexSequence(b)) => r.err = Some(UE::Hex(b)),
        },
        UK::Query => {
            let errs = RefCell::new(vec![]);
            {
                let mut it = QueryIterator::new(s);
                it.on_error(|e| errs.borrow_mut().push(match e { QueryError::Name(b) => UE::Name(b), QueryError::Value(b) => UE::Value(b) }));
                iterate(&mut it, s.len(), &errs, &mut r);
            }
            if r.bad.is_none() { let mut q = URes::default(); iterate(&mut QueryIterator::new(s), s.len(), &RefCell::new(vec![]), &mut q); silent(&mut r, q); }
            if r.bad.is_none() { replaced!(QueryIterator::new(s), QueryError, s, r); }
            if r.bad.is_none() { driven!(QueryIterator::new(s), QueryError, s, r); }
        }
        UK::Field { delim, norm } => {
            let errs = RefCell::new(vec![]);
            {
                let mut it = FieldIterator::new(s, delim, norm);
                it.on_error(|e| errs.borrow_mut().push(match e { FieldError::Name(b) => UE::Name(b), FieldError::Value(b) => UE::Value(b) }));
                iterate(&mut it, s.len(), &errs, &mut r);
            }
            if r.bad.is_none() { let mut q = URes::default(); iterate(&mut FieldIterator::new(s, delim, norm), s.len(), &RefCell::new(vec![]), &mut q); silent(&mut r, q); }
            if r.bad.is_none() { replaced!(FieldIterator::new(s, delim, norm), FieldError, s, r); }
            if r.bad.is_none() { driven!(FieldIterator::new(s, delim, norm), FieldError, s, r); }
        }
    }
    r
}

fn silent(r: &mut URes, q: URes) {
    if q.bad.is_some() || q.items != r.items { r.bad = Some(format!("without an error callback the iteration yields {:?}", Items(&q.items))); }
}

fn note(r: &mut URes, b: &[u8]) { if std::str::from_utf8(b).is_err() && r.bad_utf8.is_none() { r.bad_utf8 = Some(b.to_vec()); } }

fn iterate(it: &mut dyn Iterator<Item = (String, Option<String>)>, len: usize, errs: &RefCell<Vec<UE>>, r: &mut URes) {
    loop {
        match it.next() {
            Some((n, v)) => {
                if !errs.borrow().is_empty() { r.bad = Some("an item was yielded together with an error".into()); break; }
                note(r, n.as_bytes());
                if let Some(v) = &v { note(r, v.as_bytes()); }
                r.items.push((n.into_bytes(), v.map(|x| x.into_bytes())));
                if r.items.len() > len + 4 { r.bad = Some("more items than bytes: the iteration does not end".into()); return; }
            }
            None => break,
        }
    }
    {
        let e = errs.borrow();
        r.err = e.first().copied();
        if e.len() > 1 { r.bad = Some(format!("{} errors were reported: {:?}", e.len(), e)); }
    }
    let n = errs.borrow().len();
    for _ in 0..3 {
        if let Some(x) = it.next() { r.bad = Some(format!("after the end next() yields {:?}", x)); return; }
        if errs.borrow().len() != n { r.bad = Some("an error was reported after the end of the iteration".into()); return; }
    }
}

pub struct Items<'a>(pub &'a [Item]);
impl<'a> std::fmt::Debug for Items<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "[")?;
        for (n, v) in self.0.iter().take(40) {
            match v { Some(v) => write!(f, "(\"{}\", \"{}\") ", show(n), show(v))?, None => write!(f, "(\"{}\") ", show(n))? }
        }
        write!(f, "]")
    }
}

/// None: conforms.
pub fn cmp(r: &URes, m: &UModel) -> Option<String> {
    if let Some(b) = &r.bad { return Some(b.clone()); }
    let same = r.items == m.items || {
        // `name=` in front of the end: a missing and an empty value cannot be told apart
        m.loose_last && r.items.len() == m.items.len() && r.items.last().map(|x| &x.0) == m.items.last().map(|x| &x.0)
            && r.items.last().map_or(false, |x| x.1.as_ref().map_or(true, |v| v.is_empty()))
            && r.items[..r.items.len() - 1] == m.items[..m.items.len() - 1]
    };
    if !same { return Some(format!("yields {:?} (error {:?}), expected {:?} (error {:?})", Items(&r.items), r.err, Items(&m.items), m.err)); }
    match (r.err, m.err.is_empty()) {
        (None, true) => None,
        (Some(e), false) if m.err.contains(&e) => None,
        (e, _) => Some(format!("error is {:?}, expected {}", e, if m.err.is_empty() { "none".to_string() } else { format!("{:?}", m.err) })),
    }
}

// ------------------------------------------------------------------------------------------------
// Workloads
// ------------------------------------------------------------------------------------------------

pub const CHARS: &[&str] = &["a", "Z", "9", " ", "+", "%", "&", ";", "=", "/", "?", "\"", "\\", "\u{0}", "\u{1F}", "\u{7F}", "\u{80}", "\u{FF}", "\u{7FF}",
    "\u{800}", "\u{D7FF}", "\u{E000}", "\u{FFFD}", "\u{FFFF}", "\u{10000}", "\u{10FFFF}", "é", "€", "𝄞", "~", "!", ",", ":", "\t", "\r", "\n"];

pub fn text(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(max + 1) { if r.chance(1, 2) { s.push((b'a' + r.below(26) as u8) as char); } else { s.push_str(*r.pick(CHARS)); } }
    s
}

/// Bytes that are not, or not quite, UTF-8.
pub fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    r.pick(&[&b"\x80"[..], b"\xBF", b"\xC0\x80", b"\xC1\xBF", b"\xC2", b"\xC2A", b"\xE0\x80\x80", b"\xE0\xA0", b"\xED\xA0\x80", b"\xED\xBF\xBF", b"\xEF\xBF",
        b"\xF0\x80\x80\x80", b"\xF0\x90\x80", b"\xF4\x90\x80\x80", b"\xF5\x80\x80\x80", b"\xF8\x88\x80\x80\x80", b"\xFE", b"\xFF", b"\xC3\xC3\xA9", b"\xE2\x82A"]).to_vec()
}

/// URL encode, with the choices left to the encoder taken at random.
pub fn encode(r: &mut Rng, s: &[u8], reserved: &[u8], out: &mut Vec<u8>) {
    for &b in s {
        if b == b' ' && r.bool() { out.push(b'+'); }
        else if is_vis(b) && b != b'%' && b != b'+' && !reserved.contains(&b) && r.chance(4, 5) { out.push(b); }
        else {
            let h = if r.bool() { format!("%{:02x}", b) } else { format!("%{:02X}", b) };
            if r.chance(1, 4) { out.extend(h.to_lowercase().bytes().enumerate().map(|(i, c)| if i == 1 { c.to_ascii_uppercase() } else { c })); } else { out.extend(h.bytes()); }
        }
    }
}

pub const HOTQ: &[u8] = b"%%+&;=a0fFgG4@`/\x00\x20\x7F\x80\xFF{:~!\r";
pub const HOTF: &[u8] = b";;,==\"\"\\\\ \taAzZ@[`{/\x00\x7F\x80\xC3\xA9\xFF\x1F:-(~!\r\n";

fn mutate(r: &mut Rng, v: &mut Vec<u8>, hot: &[u8]) {
    for _ in 0..r.range(1, 3) {
        if v.is_empty() { v.push(*r.pick(hot)); continue; }
        let i = r.below(v.len());
        match r.below(7) {
            0 => v[i] = *r.pick(hot), 1 => v[i] = r.u8(), 2 => v.insert(i, *r.pick(hot)), 3 => { v.remove(i); } 4 => v.truncate(i),
            5 => v[i] ^= 1 << r.below(8), _ => { let b = bad_utf8(r); for (k, x) in b.into_iter().enumerate() { v.insert(i + k, x); } }
        }
    }
}

/// A valid input together with the items it was built from.
pub fn valid(r: &mut Rng, k: UK) -> (Vec<u8>, Vec<Item>) {
    let mut s = vec![];
    let mut items = vec![];
    match k {
        UK::Decode => { let t = text(r, 24); encode(r, t.as_bytes(), b"", &mut s); items.push((t.into_bytes(), None)); }
        UK::Query => {
            let n = r.range(1, 5);
            for i in 0..n {
                if i > 0 { s.push(*r.pick(b"&;")); }
                let mut nm = text(r, 8);
                if i == 0 && nm.is_empty() { nm.push('q'); }
                encode(r, nm.as_bytes(), b"&;=", &mut s);
                let v = if r.chance(3, 4) { s.push(b'='); let v = text(r, 8); encode(r, v.as_bytes(), b"&;", &mut s); Some(v.into_bytes()) } else { None };
                // an empty last name without value leaves nothing to iterate
                if i + 1 == n && i > 0 && nm.is_empty() && v.is_none() { continue; }
                items.push((nm.into_bytes(), v));
            }
        }
        UK::Field { delim, norm } => {
            let n = r.range(1, 5);
            for i in 0..n {
                if i > 0 { s.push(delim); }
                if r.bool() { s.extend(&b"  \t "[..r.below(5)]); }
                let mut nm: Vec<u8> = crate::h1gen::token(r, 10).into_iter().filter(|b| *b != delim).collect();
                if r.chance(1, 6) { let j = r.below(nm.len() + 1); nm.insert(j, b'/'); }
                if nm.is_empty() { nm.push(b'q'); }
                s.extend(&nm);
                let v = match r.below(4) {
                    0 => None,
                    1 => {
                        // unquoted, not empty
                        s.push(b'=');
                        if r.bool() { s.extend(&b" \t "[..r.below(4)]); }
                        let mut v = vec![b'v'];
                        for _ in 0..r.below(10) {
                            let c = *r.pick(CHARS);
                            if c.bytes().all(|b| is_field(b) && b != delim) { v.extend(c.bytes()); }
                        }
                        s.extend(&v);
                        Some(v)
                    }
                    _ => {
                        s.push(b'=');
                        if r.bool() { s.extend(&b" \t "[..r.below(4)]); }
                        s.push(b'"');
                        let mut v = vec![];
                        for _ in 0..r.below(10) {
                            let c = if r.bool() { *r.pick(CHARS) } else { *r.pick(&["x", ";", ",", "\\", "\""]) };
                            let raw = c.bytes().all(is_qfield);
                            if !raw && c.len() > 1 { continue; }
                            if !raw || c.len() == 1 && r.chance(1, 4) { s.push(b'\\'); }
                            s.extend(c.bytes());
                            v.extend(c.bytes());
                        }
                        s.push(b'"');
                        if r.chance(1, 4) { s.extend(&b" \t "[..r.below(4)]); }
                        Some(v)
                    }
                };
                if norm { nm.make_ascii_lowercase(); }
                items.push((nm, v));
            }
            // text at the end of an unquoted value belongs to it
            if r.chance(1, 6) { s.push(delim); if r.bool() { s.extend(b" \t"); } }
        }
    }
    (s, items)
}

pub fn any(r: &mut Rng, k: UK) -> Vec<u8> {
    let hot = if let UK::Field { .. } = k { HOTF } else { HOTQ };
    match r.below(8) {
        0 | 1 => valid(r, k).0,
        2..=4 => { let mut v = valid(r, k).0; mutate(r, &mut v, hot); v }
        5 => { let mut v = valid(r, k).0; let b = bad_utf8(r); if let UK::Field { .. } = k { let i = r.below(v.len() + 1); for (j, x) in b.into_iter().enumerate() { v.insert(i + j, x); } } else { for x in b { if r.chance(4, 5) || is_vis(x) { v.extend(format!("%{:02X}", x).bytes()); } } if r.bool() { v.extend(b"&b=c"); } } v }
        _ => { let n = r.below(16); (0..n).map(|_| if r.chance(4, 5) { *r.pick(hot) } else { r.u8() }).collect() }
    }
}

pub const DELIMS: &[u8] = b";;;;,,&|:~x\x00\x80\xFF";
pub fn field_kind(r: &mut Rng) -> UK { UK::Field { delim: *r.pick(DELIMS), norm: r.bool() } }

pub fn templates(k: UK) -> Vec<Vec<u8>> {
    match k {
        UK::Decode => vec![b"a%41+%e2%82%AC~".to_vec(), b"%C3%A9".to_vec(), b"ab".to_vec(), b"x%F0%9D%84%9Ey".to_vec(), vec![]],
        UK::Query => vec![b"a=b&c;d=&%41%7a+=%C3%A9+e;f==g".to_vec(), b"a&&=b;".to_vec(), b"q".to_vec(), b"n=%e2%82%AC".to_vec(), b"%c3%A9=1&x".to_vec(), vec![]],
        UK::Field { .. } => vec![b"Ab/c=d e; F=\"g;\\\"h\" ;iJ;k= \tl".to_vec(), b"COMPRESSION=bzip; BOUNDARY=\"xy\"".to_vec(), b"a,B=\"\"".to_vec(), b"n=\"\xC3\xA9\"; m=\xC3\xA9".to_vec(), b"A".to_vec(), b"text/html; Q=0.5".to_vec(), b"a=".to_vec(), b"a=;b= ".to_vec(), vec![]],
    }
}

/// The i-th string over an alphabet: all lengths up to `max`, shortest first.
pub fn nth(alpha: &[u8], mut i: u64) -> Vec<u8> {
    let n = alpha.len() as u64;
    let mut v = vec![];
    let mut len = 0;
    let mut cnt = 1;
    while i >= cnt { i -= cnt; cnt *= n; len += 1; }
    for _ in 0..len { v.push(alpha[(i % n) as usize]); i /= n; }
    v
}
pub fn count(alpha: &[u8], max: u32) -> u64 { (0..=max).map(|l| (alpha.len() as u64).pow(l)).sum() }

/// Something far longer, or far more often, than usual.
pub fn long(r: &mut Rng, k: UK) -> Vec<u8> {
    let top = *r.pick(&[8usize, 9, 10, 11, 13, 16]);
    let n = crate::h1gen::edge_len(r, top);
    let shape = r.below(5);
    let mut v = long_at(r, k, shape, n);
    if r.chance(1, 6) { let i = r.below(v.len()); v[i] = r.u8(); }
    v
}

/// The text of the given shape with a size of about `n`.
pub fn long_at(r: &mut Rng, k: UK, shape: usize, n: usize) -> Vec<u8> {
    let one = match r.below(4) { 0 => b"a".to_vec(), 1 => b"Z".to_vec(), 2 => { let s = *r.pick(CHARS); s.as_bytes().to_vec() } _ => b"x9".to_vec() };
    let mut v = vec![];
    match k {
        UK::Decode | UK::Query => {
            let q = k == UK::Query;
            match shape {
                0 => { if q && r.bool() { v.extend(b"n="); } for _ in 0..n { v.push(if one.len() == 1 { one[0] } else { b'b' }); } }
                1 => { if q && r.bool() { v.extend(b"a&n="); } while v.len() < n { encode(r, &one, b"&;=", &mut v); } }
                2 => { if q && r.bool() { v.extend(b"q="); } for _ in 0..n / 3 + 1 { v.extend(format!("%{:02x}", r.below(128)).bytes()); } }
                3 => { v.push(b'w'); v.extend(vec![b'+'; n]); }
                _ => while v.len() < n { let x = valid(r, k).0; v.extend(x); if q { v.push(*r.pick(b"&;")); } },
            }
        }
        UK::Field { delim, .. } => match shape {
            0 => { v.extend(vec![one[0] & 0x7F; n]); if r.bool() { v.extend(b"=x"); } }
            1 => { v.extend(b"a="); while v.len() < n { v.extend(&one); } }
            2 => { v.extend(b"a=\""); while v.len() < n { if r.chance(1, 20) { v.extend(b"\\\""); } v.extend(&one); } v.extend(b"\""); }
            3 => { for i in 0..n { v.push(if i % 2 == 0 { b'A' } else { b'a' }); } v.push(delim); v.extend(vec![b' '; n]); v.extend(b"b=c"); }
            _ => while v.len() < n { let x = valid(r, k).0; v.extend(x); v.push(delim); },
        },
    }
    v
}
