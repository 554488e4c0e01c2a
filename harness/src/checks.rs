//! Property -> workloads and oracles.

use crate::engine::*;
use crate::ev::*;
use crate::h1::*;
use crate::h1gen as g;
use crate::h2;
use crate::misc;
use crate::rng::Rng;
use crate::ut::{self, UK};
use std::sync::Arc;

pub type Judge = fn(&Case, &mut Obs) -> Result<(), String>;

/// How the cases of a workload are cut and answered.
#[derive(Clone, Copy, PartialEq)]
pub enum How { Whole, Cut, Intr, CutIntr }

fn fail(c: &Case, o: &Out, m: String) -> Result<(), String> { Err(format!("{} | case: {:?} | observed: {}", m, c, o.describe())) }

fn note(c: &Case, o: &Out, obs: &mut Obs) {
    obs.out(o);
    if o.ncb > 0 { obs.nontrivial(c.hash()); }
    obs.sample(|| format!("{:?} -> {}", c, o.describe()));
}

fn crashed(c: &Case, o: &Out) -> Result<(), String> {
    match &o.fin { Fin::Panic(m) => fail(c, o, format!("panic: {}", m)), Fin::Broken => fail(c, o, format!("broken result: {}", o.mon(&[Mon::Count]).unwrap_or_default())), _ => Ok(()) }
}

// ------------------------------------------------------------------------------------------------
// Judges
// ------------------------------------------------------------------------------------------------

const EXTRA: &[&[u8]] = &[b"", b"GET / HTTP/1.1\r\n\r\n", b"\r\n", b"0\r\n\r\n", b"--b--", b"a=b&c", b"", b"\x00\x00\x00\x04\x00\x00\x00\x00\x00", b"\x00", b"HTTP/1.1 200 OK\r\na: b\r\n\r\n", b"\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF"];

fn j_crash(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let o = run_x(c, &EXTRA[..4], false);
    note(c, &o, obs);
    if let Fin::Err(EK::Other, _) = o.fin { if c.mode != Mode::H2 { return fail(c, &o, "an error that is not documented".into()); } }
    crashed(c, &o)
}

/// The same input in one slice and in many.
fn j_split(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let whole = run(&c.whole());
    let o = run(c);
    note(c, &o, obs);
    obs.runs += 1;
    if let Some(m) = cmp_runs(&o, &whole) { return fail(c, &o, format!("{} | in one slice: {}", m, whole.describe())); }
    if c.frags.len() < c.input.len() {
        let b = c.with_frags(vec![1; c.input.len()]);
        let ob = run(&b);
        obs.out(&ob);
        if let Some(m) = cmp_runs(&ob, &whole) { return fail(&b, &ob, format!("{} | in one slice: {}", m, whole.describe())); }
    }
    Ok(())
}

fn j_model(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = Model::run(c);
    let o = run(c);
    note(c, &o, obs);
    crashed(c, &o)?;
    match cmp_model(&o, &m) { Some(x) => fail(c, &o, x), None => Ok(()) }
}

/// state() agrees with the results, and does not depend on the cuts and replies.
fn j_state(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let o = run_x(c, &EXTRA[..5], true);
    note(c, &o, obs);
    if let Some(m) = o.mon(&[Mon::State]) { return fail(c, &o, m); }
    if let Fin::Panic(_) | Fin::Broken = o.fin { return Ok(()); }
    let w = run_x(&c.whole(), &[], true);
    obs.runs += 1;
    if w.fin == o.fin && w.off == o.off && w.state != o.state { return fail(c, &o, format!("state() is {} at the end, in one slice and uninterrupted it is {}", o.state, w.state)); }
    Ok(())
}

/// Handlers that leave callbacks out.
fn j_optional(c: &Case, obs: &mut Obs) -> Result<(), String> {
    obs.runs += 4;
    match catch(|| crate::part::optional(c)) {
        // a crash is not what is looked for here, unless only some handlers see it
        Err(m) => { if let Fin::Panic(_) = run(&Case { intr: Intr::None, ..c.clone() }).fin { return Ok(()); } Err(format!("panic: {} | case: {:?}", m, c)) }
        Ok(Err(m)) => Err(format!("{} | case: {:?}", m, c)),
        Ok(Ok(n)) => { obs.count("callbacks", n); if n > 0 { obs.nontrivial(c.hash()); } obs.sample(|| format!("{:?}: {} callbacks", c, n)); Ok(()) }
    }
}

/// Well-formed input only (complete or not).
fn j_content(c: &Case, obs: &mut Obs) -> Result<(), String> {
    if let Fin::Err(..) = Model::run(c).fin { obs.count("skipped_malformed", 1); return Ok(()); }
    j_model(c, obs)
}

fn j_error(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = Model::run(c);
    let o = run(c);
    obs.out(&o);
    crashed(c, &o)?;
    let (me, oe) = (matches!(m.fin, Fin::Err(..)), matches!(o.fin, Fin::Err(..)));
    if me { obs.nontrivial(c.hash()); obs.sample(|| format!("{:?} -> {}", c, o.describe())); }
    if !me && !oe { return Ok(()); }
    if !me { return fail(c, &o, format!("well-formed input is rejected, expected {:?}", m.fin)); }
    match cmp_model(&o, &m) { Some(x) => fail(c, &o, x), None => Ok(()) }
}

fn j_interrupt(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let base = Case { intr: Intr::None, after: After::Rest, ..c.clone() };
    let b = run(&base);
    let o = run(c);
    obs.out(&b);
    obs.out(&o);
    if o.callbacks_false > 0 { obs.nontrivial(c.hash()); }
    obs.sample(|| format!("{:?} -> {}", c, o.describe()));
    if let Some(m) = o.mon(&[Mon::Interrupt]) { return fail(c, &o, m); }
    if c.mode == Mode::H2 { for x in [&b, &o] { if let Some(m) = x.mon(&[Mon::Count, Mon::Total]) { return fail(c, x, m); } } }
    if let Some(m) = cmp_runs(&o, &b) {
        // the caller may have cut the rest differently
        if let After::Mixed(_) = c.after { if cmp_runs(&o, &run(&c.whole())).is_none() { return Ok(()); } }
        return fail(c, &o, format!("{} | uninterrupted: {}", m, b.describe()));
    }
    Ok(())
}

fn j_count(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = Model::run(c);
    let o = run(c);
    note(c, &o, obs);
    if let Some(x) = o.mon(&[Mon::Count, Mon::Total]) { return fail(c, &o, x); }
    match (&m.fin, &o.fin) {
        (Fin::Finished, Fin::Finished) | (Fin::More, Fin::More) if o.off == m.off => Ok(()),
        (Fin::Err(..), Fin::Err(..)) => Ok(()),
        (a, _) => fail(c, &o, format!("the message is {:?} after {} bytes", a, m.off)),
    }
}

fn j_terminal(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut ex: Vec<&[u8]> = EXTRA.to_vec();
    ex.push(&c.input);
    if c.input.len() > 1 { ex.push(&c.input[c.input.len() / 2..]); }
    let o = run_x(c, &ex, false);
    obs.out(&o);
    if matches!(o.fin, Fin::Finished | Fin::Err(..)) { obs.nontrivial(c.hash()); obs.count("calls_after_the_end", ex.len() as u64); }
    obs.sample(|| format!("{:?} -> {:?}, {} further calls", c, o.fin, ex.len()));
    if let Fin::Panic(m) = &o.fin {
        // a crash in the calls after the end, not before it
        let before = run(c);
        if !matches!(before.fin, Fin::Panic(_)) { return fail(c, &before, format!("panic in a call after the end: {}", m)); }
        return Ok(());
    }
    match o.mon(&[Mon::Terminal]) { Some(x) => fail(c, &o, x), None => Ok(()) }
}

/// hundreds of further calls, now and then more than 16 bits count
fn w_calls_after(modes: &'static [Mode]) -> Wk {
    let t = all_templates(modes);
    let n = t.len() as u64;
    sweep("hundreds-of-further-calls", n * 6, move |k, r, obs| {
        let mut c = t[(k % n) as usize].clone();
        // as it is, with one byte that does not fit, cut, or interrupted
        if k / n % 2 == 1 && !c.input.is_empty() { let i = r.below(c.input.len()); c.input[i] = *r.pick(b"\x00\xFF\x7F\r\n:"); }
        if k / n >= 2 { dress(&mut c, r, How::CutIntr); }
        let calls = if k % 64 == 5 { 65_530 + r.below(20) } else { 300 };
        let own: Vec<Vec<u8>> = (0..20).map(|_| { let n = *r.pick(&[0usize, 1, 1, 2, 3, 9, 40, 300]); (0..n).map(|_| *r.pick(b"\r\n:-ab0=& ;\x00\xFF")).collect() }).collect();
        let x = r.below(3);
        let ex: Vec<&[u8]> = (0..calls).map(|i| match x { 0 => EXTRA[i % EXTRA.len()], 1 => &own[i % own.len()][..], _ => b"" as &[u8] }).collect();
        let o = run_x(&c, &ex, false);
        obs.out(&o);
        if matches!(o.fin, Fin::Finished | Fin::Err(..)) { obs.nontrivial(c.hash() ^ k); obs.count("calls_after_the_end", ex.len() as u64); }
        if let Fin::Panic(m) = &o.fin {
            let before = run(&c);
            if !matches!(before.fin, Fin::Panic(_)) { return fail(&c, &before, format!("panic in one of {} calls after the end: {}", calls, m)); }
            return Ok(());
        }
        match o.mon(&[Mon::Terminal]) { Some(x) => fail(&c, &o, x), None => Ok(()) }
    })
}

fn j_protocol(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let o = run_x(c, &EXTRA[..6], true);
    note(c, &o, obs);
    if let Fin::Panic(_) | Fin::Broken = o.fin { return Ok(()); }
    if let Some(x) = misc::protocol(c.mode, &o) { return fail(c, &o, x); }
    if let Some(x) = o.mon(&[Mon::Terminal]) { if x.contains("callback from") { return fail(c, &o, x); } }
    Ok(())
}

fn j_timely(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let o = run(c);
    note(c, &o, obs);
    if let Fin::Panic(_) = o.fin { return Ok(()); }
    let x = if c.mode == Mode::H2 { h2::cmp_snaps2(&o, &h2::Model2::run(c)) } else { cmp_snaps(&o, &Model::run(c)) };
    match x { Some(x) => fail(c, &o, x), None => Ok(()) }
}

/// Bytes handed back lie in the slice that was passed, except names, which are normalised, single bytes that were
/// decoded, and those of what looked like a multipart delimiter.
fn j_lent(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let o = run(c);
    note(c, &o, obs);
    if let Some(x) = o.mon(&[Mon::Lent]) { return fail(c, &o, x); }
    for i in 0..NK {
        if o.strange.0[i] == 0 { continue; }
        let k = K::of(i);
        let most = match k {
            K::Method | K::HName | K::ExtName => u64::MAX,
            K::HVal | K::ExtVal | K::UName | K::UVal => 1,
            K::MpData => c.boundary.len() as u64 + 4,
            _ => 0,
        };
        if o.strange.1[i] > most { return fail(c, &o, format!("{} bytes of {:?} are not part of the slice that was passed", o.strange.1[i], k)); }
        obs.count(&format!("copied_{:?}", k), o.strange.0[i]);
    }
    Ok(())
}

fn j_any(c: &Case, obs: &mut Obs) -> Result<(), String> { if c.mode == Mode::H2 { j_badframes(c, obs) } else { j_model(c, obs) } }

fn j_frames(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = h2::Model2::run(c);
    if m.bad.is_some() { obs.count("skipped_malformed", 1); return Ok(()); }
    j2(c, &m, obs)
}
fn j_badframes(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = h2::Model2::run(c);
    if m.bad.is_none() { obs.count("well_formed", 1); }
    j2(c, &m, obs)
}
fn j2(c: &Case, m: &h2::Model2, obs: &mut Obs) -> Result<(), String> {
    let o = run(c);
    note(c, &o, obs);
    obs.count("frames", m.frames as u64);
    crashed(c, &o)?;
    if let Some(x) = h2::cmp_model2(&o, m, c) { return fail(c, &o, x); }
    // payload callbacks: exactly one carries the end mark, and nothing of the payload follows it
    let mut payload: Option<K> = None;
    for e in &o.log.evs {
        let end = matches!(e.k, K::DataEnd | K::DebugEnd | K::FragEnd | K::PingEnd | K::UnsupEnd);
        if e.k == K::Frame { payload = None; }
        else if end { if payload.is_some() { return fail(c, &o, format!("second {:?} within a frame", e.k)); } payload = Some(e.k); }
        else if e.k.is_data() && payload.is_some() { return fail(c, &o, format!("{:?} after the last piece", e)); }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Workloads shared by the properties
// ------------------------------------------------------------------------------------------------

/// Maps a case number onto (group, number within the group).
pub struct Idx { ends: Vec<u64> }
impl Idx {
    pub fn new(n: impl Iterator<Item = u64>) -> Idx { let mut s = 0; Idx { ends: n.map(|x| { s += x; s }).collect() } }
    pub fn total(&self) -> u64 { *self.ends.last().unwrap_or(&0) }
    pub fn get(&self, k: u64) -> (usize, u64) {
        let i = self.ends.partition_point(|e| *e <= k);
        (i, k - if i == 0 { 0 } else { self.ends[i - 1] })
    }
}

fn all_templates(modes: &[Mode]) -> Vec<Case> {
    g::templates().into_iter().chain(h2::templates2()).filter(|c| modes.contains(&c.mode)).collect()
}

fn split2(c: &Case, at: usize) -> Case { let n = c.input.len(); c.with_frags(vec![at.min(n), n - at.min(n)]) }

/// every 2-split of every template, also with an empty slice in between
fn w_splits(t: &Arc<Vec<Case>>, j: Judge) -> Wk {
    let t = t.clone();
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1) * 2));
    sweep("every-2-split", ix.total(), move |k, _, obs| {
        let (i, s) = ix.get(k);
        let mut c = split2(&t[i], (s / 2) as usize);
        if s % 2 == 1 { c.frags.insert(1, 0); c.frags.insert(0, 0); }
        j(&c, obs)
    })
}

fn w_splits3(t: &Arc<Vec<Case>>, j: Judge, lim: usize) -> Wk {
    let t: Vec<Case> = t.iter().filter(|c| c.input.len() <= lim).cloned().collect();
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1).pow(2)));
    sweep("every-3-split", ix.total(), move |k, _, obs| {
        let (i, s) = ix.get(k);
        let n = t[i].input.len();
        let (a, b) = (s as usize % (n + 1), s as usize / (n + 1));
        if a > b { return Ok(()); }
        j(&t[i].with_frags(vec![a, b - a, n - b]), obs)
    })
}

/// every single interruption of every template, in one slice and byte by byte
fn w_intr(t: &Arc<Vec<Case>>, j: Judge) -> Wk {
    let t = t.clone();
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 24) * 4));
    sweep("every-interruption", ix.total(), move |k, _, obs| {
        let (i, s) = ix.get(k);
        let mut c = t[i].clone();
        c.intr = if s < 4 { Intr::All } else { Intr::Only(s / 4 - 1) };
        if s & 1 == 1 { c.frags = vec![1; c.input.len()]; }
        if s & 2 == 2 { c.after = After::Next; }
        j(&c, obs)
    })
}

/// every 2-split with every single interruption, as far as the templates are short
fn w_split_intr(t: &Arc<Vec<Case>>, j: Judge, lim: usize) -> Wk {
    let t: Vec<Case> = t.iter().filter(|c| c.input.len() <= lim).cloned().collect();
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1) * (c.input.len() as u64 + 10) * 2));
    sweep("every-2-split-and-interruption", ix.total(), move |k, r, obs| {
        let (i, s) = ix.get(k);
        let (s, other) = (s / 2, s % 2 == 1);
        let n = t[i].input.len() as u64 + 1;
        let mut c = split2(&t[i], (s % n) as usize);
        c.intr = if s / n == 0 { Intr::All } else { Intr::Only(s / n - 1) };
        if other { c.after = g::after(r); if r.bool() { c.frags.insert(1, 0); } }
        j(&c, obs)
    })
}

/// every byte value at every position of every template
fn w_bytes(t: &Arc<Vec<Case>>, j: Judge, how: How) -> Wk {
    let t = t.clone();
    let ix = Idx::new(t.iter().map(|c| c.input.len() as u64 * 256));
    let name = match how { How::Whole => "every-byte-everywhere", How::Cut => "every-byte-everywhere-cut", _ => "every-byte-everywhere-interrupted" };
    sweep(name, ix.total(), move |k, r, obs| {
        let (i, s) = ix.get(k);
        let (p, b) = ((s / 256) as usize, s as u8);
        let mut c = t[i].clone();
        c.input[p] = b;
        match how {
            How::Whole => (),
            How::Cut => { c = split2(&c, p + r.below(2)); }
            _ => { c.intr = Intr::Prob(r.u64(), 90); c.after = g::after(r); if r.bool() { c = split2(&c, p + 1); } }
        }
        j(&c, obs)
    })
}

/// every interesting byte inserted, and every byte removed, at every position of every template
fn w_edit(t: &Arc<Vec<Case>>, j: Judge, how: How) -> Wk {
    let t = t.clone();
    let hot = g::HOT.len() as u64 + 2;
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1) * hot));
    sweep("every-insertion-and-removal", ix.total(), move |k, r, obs| {
        let (i, s) = ix.get(k);
        let (p, b) = ((s / hot) as usize, (s % hot) as usize);
        let mut c = t[i].clone();
        if b < g::HOT.len() { c.input.insert(p, g::HOT[b]); }
        else if b == g::HOT.len() { if p < c.input.len() { c.input.remove(p); } }
        else { c.input.truncate(p); }
        if c.mode == Mode::Url && r.bool() { c.length = c.input.len(); }
        c.frags = vec![c.input.len()];
        dress(&mut c, r, how);
        j(&c, obs)
    })
}

pub fn dress(c: &mut Case, r: &mut Rng, how: How) {
    if matches!(how, How::Cut | How::CutIntr) { c.frags = g::frags(r, c.input.len()); }
    if matches!(how, How::Intr | How::CutIntr) { c.intr = g::intr(r); c.after = g::after(r); }
}

struct Spec { mode: Mode, pre: &'static [u8], alpha: &'static [u8], max: u32, post: &'static [u8], b: &'static [u8], cls: Option<usize> }

fn specs(modes: &[Mode]) -> Vec<Spec> {
    fn s(mode: Mode, pre: &'static [u8], alpha: &'static [u8], max: u32) -> Spec { Spec { mode, pre, alpha, max, post: b"", b: b"b", cls: None } }
    use Mode::*;
    let mut v = vec![
        s(Head, b"", b"GHTP/1 .\r\n", 5), s(New, b"", b"HTPG/1 \r", 6), s(Head, b"HTTP/", b"019. \rX", 6), s(Head, b"HTTP/1.1 ", b"209 \rA\n", 6), s(Head, b"HTTP/1.1 200 ", b"A \r\n\t\x80\x7F", 5),
        s(Head, b"HT", b"TP/1. \r", 6), s(Head, b"G", b"ET /H\r\n\x80", 5), s(Head, b"GET ", b"/ HTP1.\r", 6), s(Head, b"GET / HTTP/", b"019. \r\n", 6), s(Head, b"GET / HTTP/1", b".12\r\n", 7),
        s(Head, b"GET / HTTP/1.1", b"\r\n A:", 7), s(Head, b"GET / HTTP/1.1\r\n", b"aZ: \t\r\n", 6), s(Head, b"GET / HTTP/1.1\r\na:", b"b \"\\\r\n\xE9", 7), s(Head, b"GET / HTTP/1.1\r\nA: \"", b"b\"\\\r\n }", 6),
        s(Chunked, b"", b"01aG;\r\n", 6), s(Chunked, b"1;", b"aZ= ;\"\r\n", 6), s(Chunked, b"1;a=", b"b \"\\;\r\n", 6), s(Chunked, b"1;a=\"", b"b\"\\;\r}\xE9", 6), s(Chunked, b"0", b"\r\n;aA:= ", 6),
        s(Chunked, b"2\r\n", b"\r\nx01", 7), s(Chunked, b"2;x\r\n", b"\r\n0", 9), s(Chunked, b"", b"0F1\r;", 8),
        s(Multipart, b"", b"-b\r\nx", 7), s(Multipart, b"--b\r\n\r\n", b"-b\r\nx", 8), s(Multipart, b"--b\r\n", b"-b\r\n:a", 7),
        s(Url, b"", b"a%4G+&=;", 6), s(Url, b"a=", b"b%4fZ\x00&", 6), s(Url, b"", b"a%1&=", 8),
    ];
    v.push(Spec { b: b"aa", ..s(Multipart, b"--aa\r\n\r\n", b"-a\r\n", 9) });
    v.push(Spec { b: b"-", ..s(Multipart, b"---\r\n\r\n", b"-\r\nx", 9) });
    v.push(Spec { cls: Some(2), ..s(Multipart, b"--b\r\n\r\n", b"-b\r\nx", 7) });
    v.push(Spec { cls: Some(0), ..s(Multipart, b"--b\r\n\r\n", b"-b\r\nx", 7) });
    v.push(Spec { post: b"\r\n--b--", ..s(Multipart, b"--b\r\n\r\n", b"-b\r\nx", 7) });
    v.push(Spec { post: b"\r\n--ab--", b: b"ab", ..s(Multipart, b"--ab\r\n\r\n", b"-ab\r\n", 7) });
    v.retain(|s| modes.contains(&s.mode));
    v
}

/// all short strings over small alphabets, entered at many points of the grammar
fn w_enum(modes: &[Mode], j: Judge, how: How, less: u32) -> Wk {
    let sp = specs(modes);
    let ix = Idx::new(sp.iter().map(|s| ut::count(s.alpha, s.max.saturating_sub(less))));
    let name = match how { How::Whole => "all-short-strings", How::Cut => "all-short-strings-cut", _ => "all-short-strings-interrupted" };
    sweep(name, ix.total(), move |k, r, obs| {
        let (i, n) = ix.get(k);
        let s = &sp[i];
        let mut v = s.pre.to_vec();
        v.extend(ut::nth(s.alpha, n));
        let at = v.len();
        v.extend(s.post);
        let mut c = Case::new(s.mode, v);
        c.boundary = s.b.to_vec();
        if s.cls.is_some() { c.cls = vec![s.cls, None]; }
        if s.mode == Mode::Url { c.length = match n % 5 { 0 => c.input.len() + 1, 1 => c.input.len().saturating_sub(1), _ => c.input.len() }; }
        match how {
            How::Whole => (),
            How::Cut => { c = split2(&c, s.pre.len() + r.below(at - s.pre.len() + 1)); }
            _ => { c.intr = Intr::Prob(r.u64(), 128); if r.bool() { c.frags = vec![1; c.input.len()]; } c.after = g::after(r); }
        }
        j(&c, obs)
    })
}

fn w_any(name: &'static str, modes: &'static [Mode], n: u64, how: How, j: Judge) -> Wk {
    wk(name, n, move |_, r, obs| {
        let mode = *r.pick(modes);
        let big = r.chance(1, 200);
        let mut c = if mode == Mode::H2 { h2::any2(r, big) } else { g::any(r, mode, big) };
        c.frags = vec![c.input.len()];
        dress(&mut c, r, how);
        j(&c, obs)
    })
}
fn w_valid(name: &'static str, modes: &'static [Mode], n: u64, how: How, j: Judge) -> Wk {
    wk(name, n, move |_, r, obs| {
        let mode = *r.pick(modes);
        let big = r.chance(1, 100);
        let mut c = g::valid(r, mode, big);
        match r.below(6) {
            0 => { let n = r.below(c.input.len() + 1); c.input.truncate(n); }
            1 => if mode != Mode::H2 { let x = g::garbage(r); c.input.extend(x); },
            _ => (),
        }
        c.frags = vec![c.input.len()];
        dress(&mut c, r, how);
        j(&c, obs)
    })
}

/// hundreds of empty slices (now and then more than 16 bits count) at every place of every template
fn w_empties(t: &Arc<Vec<Case>>, j: Judge) -> Wk {
    let t = t.clone();
    let ix = Idx::new(t.iter().map(|c| c.input.len() as u64 + 1));
    sweep("many-empty-slices", ix.total(), move |k, r, obs| {
        let (i, s) = ix.get(k);
        let s = s as usize;
        let mut c = t[i].clone();
        let n = if r.chance(1, 300) { 65_530 + r.below(20) } else { 250 + r.below(20) };
        c.frags = vec![0; n + 2];
        c.frags[0] = s;
        c.frags[n + 1] = c.input.len() - s;
        obs.count("empty_slices", n as u64);
        j(&c, obs)
    })
}

/// every template, as it is or with a byte changed, at the beginning of a slice (the first or a later one) of every size, whatever follows it
fn w_slice_sizes(t: &Arc<Vec<Case>>, top: u64, how: How, j: Judge) -> Wk {
    let t = t.clone();
    let n = t.len() as u64;
    sweep("every-template-in-slices-of-every-size", n * 16 * top, move |k, r, obs| {
        let mut c = t[(k % n) as usize].clone();
        let (v, size) = ((k / n) % 16, (k / n / 16) as usize + 1);
        if v & 1 == 1 && !c.input.is_empty() { let p = r.below(c.input.len()); c.input[p] = if r.bool() { *r.pick(g::HOT) } else { r.u8() }; }
        let at = if v & 2 == 2 { r.below(c.input.len() + 1) } else { 0 };
        if r.bool() || c.input.len() < at + size {
            let want = at + size + if r.chance(1, 3) { r.below(50) } else { 0 };
            match r.below(5) {
                0 => while c.input.len() < want { let x = &t[r.below(t.len())]; c.input.extend(if x.mode == c.mode { &x.input[..] } else { b"\r\n" }); },
                1 => while c.input.len() < want { c.input.extend(b"\r\n"); },
                2 => while c.input.len() < want { c.input.push(r.u8()); },
                3 => while c.input.len() < want { let p = r.below(c.input.len().max(1)); let b = c.input.get(p).copied().unwrap_or(0); c.input.push(b); },
                _ => { let b = *r.pick(g::HOT); c.input.resize(want.max(c.input.len()), b); }
            }
            c.input.truncate(want);
        }
        if c.mode == Mode::Url && r.bool() { c.length = c.input.len(); }
        let size = size.min(c.input.len() - at);
        c.frags = vec![at, size];
        while c.frags.iter().sum::<usize>() < c.input.len() { let x = c.input.len() - c.frags.iter().sum::<usize>(); c.frags.push(size.min(x)); }
        if matches!(how, How::Intr | How::CutIntr) && r.chance(1, 3) { c.intr = g::intr(r); c.after = g::after(r); }
        j(&c, obs)
    })
}

/// what real clients and servers send, in one slice, in two, byte by byte and otherwise
fn w_everyday(t: &Arc<Vec<Case>>, how: How, j: Judge) -> Wk {
    let modes: Vec<Mode> = ALLM.iter().filter(|m| t.iter().any(|c| c.mode == **m)).cloned().collect();
    let cs = crate::vocab::everyday(&modes);
    let n = cs.len() as u64;
    sweep("everyday-messages", n * 4, move |k, r, obs| {
        let mut c = cs[(k % n) as usize].clone();
        c.frags = vec![c.input.len()];
        match k / n { 0 => (), 1 => { let p = r.below(c.input.len() + 1); c = split2(&c, p); } 2 => c.frags = vec![1; c.input.len()], _ => dress(&mut c, r, how) }
        j(&c, obs)
    })
}

/// frames of all types with all flags
fn w_types(j: Judge, how: How) -> Wk {
    sweep("every-type-and-flags", 65536 * 2, move |k, r, obs| {
        let (ty, fl, long) = (k as u8, (k >> 8) as u8, k >> 16 == 1);
        let n = if long { r.range(15, 300) } else { r.below(15) };
        let mut p: Vec<u8> = (0..n).map(|i| 0x91u8.wrapping_add(i as u8)).collect();
        if n > 0 { p[0] = r.below(n) as u8; }
        let mut v = vec![];
        h2::put(&mut v, ty, fl, r.u32(), &p);
        h2::put(&mut v, 6, 0, 0, b"01234567");
        let mut c = Case::new(Mode::H2, v);
        dress(&mut c, r, how);
        j(&c, obs)
    })
}

/// both bytes of every pair of neighbours in the frame templates with values of their own
fn w_pairs(n: u64, j: Judge, how: How) -> Wk {
    let t: Vec<Case> = all_templates(H2M);
    wk("pairs-of-bytes", n, move |_, r, obs| {
        let mut c = r.pick(&t).clone();
        if c.input.len() < 2 { return Ok(()); }
        let i = r.below(c.input.len() - 1);
        c.input[i] = r.u8();
        c.input[i + 1] = r.u8();
        c.frags = vec![c.input.len()];
        dress(&mut c, r, how);
        j(&c, obs)
    })
}

/// one thing far longer, or far more often, than usual
fn w_long(modes: &'static [Mode], n: u64, how: How, j: Judge) -> Wk {
    wk("long-and-many", n, move |_, r, obs| {
        let m = *r.pick(modes);
        let mut c = g::long(r, m);
        if r.chance(1, 12) { let n = r.below(c.input.len()); c.input[n] = r.u8(); }
        c.frags = vec![c.input.len()];
        dress(&mut c, r, how);
        if matches!(how, How::Cut | How::CutIntr) && r.chance(2, 3) { c.frags = g::few(r, c.input.len()); }
        obs.count("longest_input", 0);
        if let Some(x) = obs.n.get_mut("longest_input") { *x = (*x).max(c.input.len() as u64); }
        j(&c, obs)
    })
}

/// one thing of every kind, of every size around a power of two and of every small size, in few slices
fn w_sizes(modes: &'static [Mode], top: u64, how: How, j: Judge) -> Wk {
    let sh: Vec<(Mode, usize)> = modes.iter().flat_map(|m| (0..g::shapes(*m)).map(move |i| (*m, i))).collect();
    let n = sh.len() as u64;
    let around = n * (top - 4) * 20;
    let small = n * 3 * if top > 17 { 9000 } else { 2100 };
    sweep("every-size-of-everything", around + small, move |k, r, obs| {
        let (m, s) = sh[(k % n) as usize];
        let (size, cut) = if k < around {
            let k = k / n;
            let (d, k) = ((k % 5) as usize, k / 5);
            ((1usize << (5 + k / 4)) + d - 2, k % 4)
        } else {
            let k = (k - around) / n;
            (1 + (k / 3) as usize, 4 + k % 3)
        };
        let mut c = g::long_at(r, m, s, size);
        dress(&mut c, r, how);
        if cut == 4 { c.frags = vec![c.input.len()]; c.intr = Intr::None; }
        else if cut > 0 || c.input.len() > 9000 { c.frags = g::few(r, c.input.len()); }
        if how == How::Whole { c.frags = vec![c.input.len()]; }
        obs.count("sizes_visited", 1);
        j(&c, obs)
    }, )
}

/// one thing of every kind, a million bytes and more of it, in one slice and in few
fn w_mega(modes: &'static [Mode], n: u64, how: How, j: Judge) -> Wk {
    let mut sh: Vec<(Mode, usize)> = modes.iter().flat_map(|m| (0..g::shapes(*m)).map(move |i| (*m, i))).collect();
    sh.dedup();
    let l = sh.len() as u64;
    sweep("millions-of-bytes-of-everything", l * n, move |k, r, obs| {
        let ((m, s), k) = (sh[(k % l) as usize], k / l);
        let size = match k { 0 => (1 << 20) + 1, 1 => (1 << 20) + r.below(1 << 10), 2 => (1 << 21) + r.below(1 << 10), 3 => (1 << 22) + r.below(1 << 10), _ => (1 << r.range(20, 22)) + r.below(5) - 2 };
        let mut c = g::long_at(r, m, s, size);
        dress(&mut c, r, how);
        c.frags = vec![c.input.len()];
        // with a hundred thousand elements, interruptions would mean as many copies of the slice
        let many = matches!((m, s), (Mode::Head, 6 | 8) | (Mode::New, 6 | 8) | (Mode::Chunked, 1 | 5 | 6) | (Mode::Multipart, 1 | 3 | 5 | 7 | 9 | 11) | (Mode::Url, 2..=4) | (Mode::H2, 2 | 5));
        if k % 2 == 0 || many { c.intr = Intr::None; }
        if k % 2 == 1 && how != How::Whole { c.frags = g::few(r, c.input.len()); }
        obs.count("millions_of_bytes", c.input.len() as u64 >> 20);
        j(&c, obs)
    })
}

/// tens of thousands of the smallest elements of a kind
fn w_many(modes: &'static [Mode], how: How, j: Judge) -> Wk {
    let sh: Vec<(Mode, usize)> = modes.iter().flat_map(|m| (0..g::kinds(*m)).map(move |i| (*m, i))).collect();
    let n = sh.len() as u64;
    sweep("more-elements-than-16-bits-count", n * 2, move |k, r, obs| {
        let (m, s) = sh[(k % n) as usize];
        let mut c = g::many(r, m, s);
        dress(&mut c, r, how);
        c.frags = if how == How::Whole { vec![c.input.len()] } else { g::few(r, c.input.len()) };
        obs.count("elements", 65_530);
        j(&c, obs)
    })
}

/// frames of every type, flags and small length, with every interesting first payload byte
fn w_frames(j: Judge, how: How) -> Wk {
    sweep("every-small-frame", 12 * 256 * 15 * 6, move |k, r, obs| {
        let (ty, k) = ((k % 12) as u8, k / 12);
        let (fl, k) = (k as u8, k / 256);
        let (len, first) = ((k % 15) as usize, k / 15);
        let mut p: Vec<u8> = (0..len).map(|i| 0x81 + i as u8).collect();
        if len > 0 { p[0] = match first { 0 => 0, 1 => 1, 2 => (len - 1) as u8, 3 => len as u8, 4 => 255, _ => (len as u8).saturating_sub(5) }; }
        let mut v = vec![];
        if r.chance(1, 3) { h2::put(&mut v, 0, 0, 1, b"x"); }
        h2::put(&mut v, ty, fl, 0x8000_0001, &p);
        h2::put(&mut v, 0, 0, 1, b"\x00\x00\x01\x00\x00\x00\x00\x00\x01y");
        h2::put(&mut v, 6, 0, 0, b"01234567");
        let mut c = Case::new(Mode::H2, v);
        dress(&mut c, r, how);
        j(&c, obs)
    })
}

const HEADM: &[Mode] = &[Mode::Head, Mode::Head, Mode::New];
const BODYM: &[Mode] = &[Mode::Chunked, Mode::Multipart, Mode::Url];
const H1M: &[Mode] = &[Mode::Head, Mode::New, Mode::Chunked, Mode::Multipart, Mode::Url];
const ALLM: &[Mode] = &[Mode::Head, Mode::New, Mode::Chunked, Mode::Multipart, Mode::Url, Mode::H2];
const H2M: &[Mode] = &[Mode::H2];
const CH: &[Mode] = &[Mode::Chunked];
const MP: &[Mode] = &[Mode::Multipart];
const UR: &[Mode] = &[Mode::Url];

// ------------------------------------------------------------------------------------------------
// Property specific workloads
// ------------------------------------------------------------------------------------------------

/// every well-known header name (and many others), in all single-letter case changes and truncations, split everywhere
fn w_names(j: Judge) -> Wk {
    let names: Vec<&str> = g::WELL_KNOWN.iter().chain(g::OTHERS).cloned().collect();
    let ix = Idx::new(names.iter().map(|n| (n.len() as u64 + 2) * 5));
    sweep("header-names", ix.total(), move |k, r, obs| {
        let (i, s) = ix.get(k);
        let (p, v) = ((s / 5) as usize, s % 5);
        let mut n = names[i].as_bytes().to_vec();
        match v {
            0 => { if p < n.len() && n[p].is_ascii_alphabetic() { n[p] ^= 0x20; } }
            1 => { n.truncate(p.max(1)); }
            2 => { if p < n.len() { n[p] = g::token(r, 1)[0]; } else { n.extend(g::token(r, 3)); } }
            3 => { let q = p.min(n.len()); n.insert(q, g::token(r, 1)[0]); }
            _ => { if r.bool() { n.make_ascii_lowercase(); } }
        }
        let mut w = if r.bool() { b"GET / HTTP/1.1\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() };
        let at = w.len();
        w.extend(&n);
        w.extend(if r.bool() { &b": v\r\n\r\n"[..] } else { b":v\r\nHost: h\r\n\r\n" });
        let c = Case::new(Mode::Head, w);
        j(&split2(&c, at + p), obs)
    })
}

fn w_versions(j: Judge) -> Wk {
    // all versions of up to three digits on one side, as request and response, split inside the version
    sweep("versions-and-status-codes", 2 * (2 * 1110 + 1000), move |k, r, obs| {
        let (resp, k) = (k % 2 == 1, k / 2);
        let ver = |k: u64| if k < 10 { format!("{}", k) } else if k < 110 { format!("{:02}", k - 10) } else { format!("{:03}", k - 110) };
        let (a, b, code) = if k < 1110 { (ver(k), r.pick(&["0", "1", "9", "00", "255", "256", "999"]).to_string(), 200) }
            else if k < 2220 { (r.pick(&["0", "1", "2", "9", "11", "255", "256", "999"]).to_string(), ver(k - 1110), 404) }
            else { ("1".into(), "1".into(), k - 2220) };
        let s = if resp { format!("HTTP/{}.{} {:03} X\r\na: b\r\n\r\n", a, b, code) } else { format!("GET / HTTP/{}.{}\r\na: b\r\n\r\n", a, b) };
        let c = Case::new(Mode::Head, s.into_bytes());
        let lo = if resp { 5 } else { 11 };
        j(&split2(&c, lo + r.below(10)), obs)
    })
}

/// chunk lengths of all magnitudes: only the beginning of the data is supplied
fn w_chunk_lengths(n: u64) -> Wk {
    wk("chunk-lengths", n, move |k, r, obs| {
        let len: u64 = match r.below(4) { 0 => k + 1, 1 => (1u64 << r.below(33)).wrapping_sub(r.below(2) as u64), 2 => r.u32() as u64, _ => r.below(0x10000) as u64 } & 0xFFFF_FFFF;
        let len = len.max(1);
        let mut s = format!("{:x}", len);
        while s.len() < 8 && r.chance(1, 4) { s.insert(0, '0'); }
        let s: String = s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect();
        let mut v = s.into_bytes();
        if r.chance(1, 4) { v.extend(b";n=v"); }
        v.extend(b"\r\n");
        let have = r.below(40);
        v.extend(g::payload(r, have));
        if len as usize <= have { v.truncate(v.len() - (have - len as usize)); v.extend(b"\r\n0\r\n\r\n"); }
        let mut c = Case::new(Mode::Chunked, v);
        if r.bool() { c.frags = g::frags(r, c.input.len()); }
        j_model(&c, obs)
    })
}

/// Bodies far larger than any buffer, and more bytes than 32 bits count, fed from a small piece of memory.
fn w_huge(mode: Mode, n: u64) -> Wk {
    let buf = Arc::new(vec![b'x'; 1 << 24]);
    wk("huge-bodies", n, move |k, r, obs| {
        let small: u64 = match k % 4 { 0 => 1 << 20, 1 => (1 << 24) - 1, _ => (1 << 24) + r.below(1 << 16) as u64 };
        let huge = k % 4 == 3;
        // (bytes in front, size of the data)
        let mut segs: Vec<(Vec<u8>, u64)> = vec![];
        let mut tail: Vec<u8> = vec![];
        match mode {
            Mode::Chunked => {
                let a = if huge { 0xFFFF_FFFF - r.below(3) as u64 } else { small };
                segs.push((format!("{:X}\r\n", a).into_bytes(), a));
                if huge { let b = (1u64 << 31) + r.below(1 << 20) as u64; segs.push((format!("\r\n{:x}\r\n", b).into_bytes(), b)); }
                tail.extend(b"\r\n0\r\n\r\n");
            }
            Mode::Multipart => { let a = if huge { (1u64 << 32) + r.below(1 << 20) as u64 } else { small }; segs.push((b"--b\r\nA: b\r\n\r\n".to_vec(), a)); tail.extend(b"\r\n--b--"); }
            Mode::Url => segs.push((b"a=".to_vec(), if huge { (1 << 27) + r.below(1 << 20) as u64 } else { small })),
            _ => {
                for _ in 0..if huge { 259 } else { 1 } {
                    let a = if huge { (1 << 24) - 1 } else { small.min((1 << 24) - 1) };
                    segs.push((vec![(a >> 16) as u8, (a >> 8) as u8, a as u8, 0, 0, 0, 0, 0, 1], a));
                }
                tail.extend(&[0, 0, 0, 4, 1, 0, 0, 0, 0]);
            }
        }
        let step = if huge && mode != Mode::Url { *r.pick(&[1usize << 24, (1 << 24) - 1, 9_999_999]) } else { *r.pick(&[1usize << 18, 65537, 40000, 262143]) };
        let data: u64 = segs.iter().map(|s| s.1).sum();
        let all = segs.iter().map(|s| s.0.len() as u64).sum::<u64>() + data + tail.len() as u64;
        let mut h = Rec::new(Intr::None, vec![Some(data as usize)], 1 << 30);
        h.count_only = true;
        use http_box::fsm::Success::*;
        let r1 = catch(|| -> Result<(), String> {
            let mut used = 0u64;
            macro_rules! go { ($p:ident) => ({
                let mut fin = false;
                let mut put = |d: &[u8], h: &mut Rec| -> Result<(), String> {
                    if fin { return Err("finished before the end of the message".into()); }
                    match $p.resume(h, d) {
                        Ok(Eos(n)) if n == d.len() => used += n as u64,
                        Ok(Finished(n)) => { used += n as u64; fin = true; }
                        x => return Err(format!("{:?} for {} bytes after {}", x.map_err(|_| "error"), d.len(), used)),
                    }
                    if $p.byte_count() as u64 != used { return Err(format!("byte_count() is {} after {}", $p.byte_count(), used)); }
                    Ok(())
                };
                for (head, size) in &segs {
                    put(head, &mut h)?;
                    let mut left = *size;
                    while left > 0 { let n = (step as u64).min(left) as usize; put(&buf[..n], &mut h)?; left -= n as u64; }
                }
                if !tail.is_empty() { put(&tail, &mut h)?; }
                if mode != Mode::H2 && !fin { return Err("not finished".into()); }
                if used != all { return Err(format!("{} bytes consumed of {}", used, all)); }
            }) }
            if mode == Mode::H2 { let mut p = http_box::http2::Parser::new(); go!(p); }
            else {
                let mut p = http_box::http1::Parser::new();
                match mode { Mode::Chunked => p.init_chunked(), Mode::Multipart => { p.init_multipart(); p.set_boundary(b"b"); } _ => { p.init_url_encoded(); p.set_length(all as usize); } }
                go!(p);
            }
            Ok(())
        });
        let what = format!("{:?} body of {:?} bytes in slices of {}", mode, segs.iter().map(|s| s.1).take(3).collect::<Vec<_>>(), step);
        obs.runs += 1;
        obs.count("huge_body_bytes", data);
        obs.nontrivial(data ^ (step as u64) << 40);
        match r1 { Err(m) => return Err(format!("panic: {} | {}", m, what)), Ok(Err(m)) => return Err(format!("{} | {}", m, what)), _ => () }
        let k = match mode { Mode::Chunked => K::ChunkData, Mode::Multipart => K::MpData, Mode::Url => K::UVal, _ => K::Data };
        let got: u64 = h.log.evs.iter().filter(|e| e.k == k).map(|e| e.a[0]).sum();
        if got != data { return Err(format!("{} data bytes delivered | {}", got, what)); }
        if mode == Mode::Chunked {
            let lens: Vec<u64> = h.log.evs.iter().filter(|e| e.k == K::ChunkLen).map(|e| e.a[0]).collect();
            let want: Vec<u64> = segs.iter().map(|s| s.1).chain(Some(0)).collect();
            if lens != want { return Err(format!("chunk lengths {:?} | {}", lens, what)); }
        }
        Ok(())
    })
}

/// messages one after another on one parser (C10)
fn w_pipeline(n: u64) -> Wk {
    wk("pipelined-messages", n, |k, r, obs| {
        let many = if k % 300 == 5 { r.range(200, 700) } else { r.range(2, 5) };
        let long = many < 9 && k % 40 == 7;
        let cs: Vec<Case> = (0..many).map(|_| { let m = *r.pick(&MODES[1..]); if long && r.bool() { g::long(r, m) } else { g::valid(r, m, false) } }).collect();
        if cs.iter().any(|c| { let m = Model::run(c); m.fin != Fin::Finished || m.off != c.input.len() }) { obs.count("skipped_unfinished", 1); return Ok(()); }
        let mut all = vec![];
        for c in &cs { all.extend(&c.input); }
        let cut = g::frags(r, all.len());
        let one = r.bool();
        let desc = format!("pipeline {:?} slices {}", cs, short(&cut));
        let intr = if r.chance(1, 3) { g::intr(r) } else { Intr::None };
        let res = catch(|| -> Result<u64, String> {
            use http_box::fsm::Success::*;
            let mut p = http_box::http1::Parser::new();
            let (mut i, mut at, mut end, mut fi, mut evs) = (0, 0, 0, 0, 0u64);
            let mut start = 0;
            let mut base = 0;
            init(&mut p, &cs[0]);
            let mut h = handler(&cs[0]);
            h.intr = intr.clone();
            h.budget = 1 << 20;
            loop {
                if at == end && fi < cut.len() { end += cut[fi]; fi += 1; }
                // the caller does not know where the message ends
                h.begin_call();
                let before = p.byte_count();
                let r = p.resume(&mut h, &all[at..end]);
                let n = match r { Ok(Callback(n)) | Ok(Eos(n)) | Ok(Finished(n)) => n, Err(e) => return Err(format!("message {} of the pipeline is rejected: {:?}", i, e)) };
                if n > end - at { return Err(format!("{:?} for {} bytes", r, end - at)); }
                if p.byte_count() != before + n { return Err(format!("byte_count() went from {} to {} with {:?}", before, p.byte_count(), r)); }
                at += n;
                match r {
                    Ok(Finished(_)) => {
                        let m = Model::run(&cs[i]);
                        if at != start + cs[i].input.len() { return Err(format!("message {} ends after {} bytes, expected {}", i, at - start, cs[i].input.len())); }
                        if let Some(x) = cmp_events(&h.log, &m.log, false) { return Err(format!("message {}: {}", i, x)); }
                        evs += h.log.evs.len() as u64;
                        start = at;
                        i += 1;
                        if i == cs.len() { break; }
                        if one { init(&mut p, &cs[i]); } else { p = http_box::http1::Parser::new(); init(&mut p, &cs[i]); base = at; }
                        if p.byte_count() != at - base { return Err(format!("byte_count() is {} after initialisation, expected {}", p.byte_count(), at - base)); }
                        h = handler(&cs[i]);
                        h.intr = intr.clone();
                        h.budget = 1 << 20;
                    }
                    Ok(Eos(_)) if at == all.len() => return Err(format!("message {} is not finished at its end", i)),
                    _ => (),
                }
                if h.ncb > (1 << 16) + 16 * all.len() as u64 { return Err("no progress".into()); }
            }
            Ok(evs)
        });
        obs.runs += cs.len() as u64;
        let h = crate::rng::hash_bytes(1, &all);
        obs.nontrivial(h);
        obs.sample(|| desc.clone());
        match res { Ok(Ok(n)) => { obs.count("events", n); Ok(()) } Ok(Err(m)) => Err(format!("{} | {}", m, desc)), Err(m) => Err(format!("panic: {} | {}", m, desc)) }
    })
}

/// a message cut short or not, on a used parser, then another one (C13)
fn w_reinit(n: u64) -> Wk {
    wk("used-parsers", n, |_, r, obs| {
        let mut hist: Vec<Case> = vec![];
        for _ in 0..r.range(1, 3) {
            let m = *r.pick(&MODES);
            let mut c = g::any(r, m, false);
            if r.chance(1, 2) { let k = r.below(c.input.len() + 1); c.input.truncate(k); }
            c.frags = if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) };
            if r.chance(1, 2) { c.intr = g::intr(r); c.after = g::after(r); }
            hist.push(c);
        }
        // stop after some calls, perhaps in the middle of an interruption
        let stop: Vec<usize> = hist.iter().map(|_| if r.chance(2, 3) { usize::MAX } else { r.below(12) }).collect();
        let mode = *r.pick(&[Mode::Head, Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url]);
        let mut c = if r.bool() { g::valid(r, mode, false) } else { g::any(r, mode, false) };
        c.frags = if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) };
        if r.chance(1, 3) { c.intr = g::intr(r); c.after = g::after(r); }
        let by_reset = r.chance(1, 3);
        // reset() keeps the type, so the last use decides it
        if by_reset && hist.last().unwrap().mode != mode && !(mode == Mode::Head && hist.last().unwrap().mode == Mode::New) {
            let mut x = g::any(r, mode, false);
            x.frags = vec![x.input.len()];
            *hist.last_mut().unwrap() = x;
        }
        reinit(&hist, &stop, by_reset, &c, obs)
    })
}

/// The message on a parser with a history behaves as on a fresh one.
pub fn reinit(hist: &[Case], stop: &[usize], by_reset: bool, c: &Case, obs: &mut Obs) -> Result<(), String> {
    let fresh = run(c);
    let used = catch(|| {
        let mut p = http_box::http1::Parser::new();
        for (i, (x, s)) in hist.iter().zip(stop).enumerate() {
            if i > 0 || x.mode != Mode::New { if x.mode == Mode::New { p.init_head(); } else { init(&mut p, x); } }
            let base = p.byte_count();
            let mut d = Drv::new(x, base);
            let mut k = 0;
            while !d.done && k < *s { d.step(&mut p); k += 1; }
            if k % 3 == 0 { d.terminal(&mut p, &[b"x", b""]); }
        }
        if by_reset { p.reset(); params(&mut p, c); } else { init(&mut p, c); }
        drive(&mut p, c, &[], false)
    });
    obs.runs += 1;
    let desc = |o: &Out| format!("history {:?} stopped after {:?} calls, then by {} {:?} | fresh parser: {} | used parser: {}", hist, stop, if by_reset { "reset()" } else { "init" }, c, fresh.describe(), o.describe());
    match used {
        Err(m) => {
            // the history itself may be what crashes
            if hist.iter().any(|x| matches!(run(x).fin, Fin::Panic(_))) || matches!(fresh.fin, Fin::Panic(_)) { obs.count("skipped_crash", 1); return Ok(()); }
            Err(format!("panic: {} | {}", m, desc(&fresh)))
        }
        Ok(o) => {
            obs.out(&o);
            obs.nontrivial(c.hash() ^ hist[0].hash());
            obs.sample(|| desc(&o));
            if o.fin != fresh.fin || o.off != fresh.off || o.log != fresh.log || o.snaps != fresh.snaps { return Err(format!("a used parser behaves differently | {}", desc(&o))); }
            Ok(())
        }
    }
}

fn w_reinit2(n: u64) -> Wk {
    wk("used-http2-parsers", n, |_, r, obs| {
        let mut h = h2::any2(r, false);
        if r.bool() { let k = r.below(h.input.len() + 1); h.input.truncate(k); }
        h.frags = g::frags(r, h.input.len());
        if r.bool() { h.intr = g::intr(r); }
        let stop = if r.bool() { usize::MAX } else { r.below(12) };
        let mut c = h2::any2(r, false);
        c.frags = g::frags(r, c.input.len());
        if r.chance(1, 3) { c.intr = g::intr(r); c.after = g::after(r); }
        reinit_frames(&h, stop, &c, obs)
    })
}

pub fn reinit_frames(h: &Case, stop: usize, c: &Case, obs: &mut Obs) -> Result<(), String> {
    let fresh = run(c);
    let used = catch(|| {
        let mut p = http_box::http2::Parser::new();
        let mut d = Drv::new(h, 0);
        let mut k = 0;
        while !d.done && k < stop { d.step(&mut p); k += 1; }
        p.reset();
        if p.byte_count() != 0 && p.byte_count() < k { return panicked("unreachable".into()); }
        let base = p.byte_count();
        let mut d = Drv::new(c, base);
        while !d.done { d.step(&mut p); }
        d.o
    });
    obs.runs += 1;
    obs.nontrivial(c.hash() ^ h.hash());
    match used {
        Err(m) => { if matches!(run(h).fin, Fin::Panic(_)) || matches!(fresh.fin, Fin::Panic(_)) { return Ok(()); } Err(format!("panic: {} | history {:?} then {:?}", m, h, c)) }
        Ok(o) => {
            if o.fin != fresh.fin || o.off != fresh.off || o.log != fresh.log || o.snaps != fresh.snaps { return Err(format!("a reset parser behaves differently | history {:?} stopped after {} calls, then {:?} | fresh parser: {} | used parser: {}", h, stop, c, fresh.describe(), o.describe())); }
            Ok(())
        }
    }
}

/// every template cut everywhere as history of every mode's message (C13)
fn w_reinit_sweep() -> Wk {
    let t: Vec<Case> = g::templates().into_iter().filter(|c| c.mode != Mode::New).collect();
    let mut next: Vec<Case> = vec![];
    for m in [Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url] { next.extend(t.iter().filter(|c| c.mode == m).take(4).cloned()); }
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1) * next.len() as u64 * 2));
    sweep("every-cut-of-every-history", ix.total(), move |k, _, obs| {
        let (i, s) = ix.get(k);
        let (c, s) = (&next[s as usize % next.len()], s as usize / next.len());
        let (at, whole) = (s / 2, s % 2 == 0);
        let h = &t[i];
        let fresh = run(c);
        let o = catch(|| {
            let mut p = http_box::http1::Parser::new();
            init(&mut p, h);
            let mut r = Rec::new(Intr::None, h.cls.clone(), 1 << 20);
            if whole { let _ = p.resume(&mut r, &h.input[..at]); } else { for b in &h.input[..at] { if p.resume(&mut r, &[*b]).is_err() { break; } } }
            init(&mut p, c);
            drive(&mut p, c, &[], false)
        });
        obs.runs += 1;
        obs.nontrivial(k);
        match o {
            Err(m) => { if matches!(fresh.fin, Fin::Panic(_)) || matches!(run(h).fin, Fin::Panic(_)) { Ok(()) } else { Err(format!("panic: {} | {} bytes of {:?}, then {:?}", m, at, h, c)) } }
            Ok(o) => {
                obs.out(&o);
                if o.fin != fresh.fin || o.off != fresh.off || o.log != fresh.log { return Err(format!("a used parser behaves differently | {} bytes of {:?}, then {:?} | fresh parser: {} | used parser: {}", at, h, c, fresh.describe(), o.describe())); }
                Ok(())
            }
        }
    })
}

/// one parser for hundreds of messages, now and then for more than 16 bits count
fn w_reuse(n: u64) -> Wk {
    wk("used-hundreds-of-times", n, |k, r, obs| {
        let many = k % 200 == 7;
        let long = !many && r.chance(1, 4);
        let pool: Vec<Case> = (0..r.range(1, if many { 3 } else { 12 })).map(|_| {
            let m = *r.pick(&MODES[1..]);
            let mut c = if long { g::long(r, m) } else if r.chance(2, 3) { g::valid(r, m, false) } else { g::any(r, m, false) };
            c.frags = if long { g::few(r, c.input.len()) } else if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) };
            if !many && r.chance(1, 4) { c.intr = g::intr(r); c.after = g::after(r); }
            c
        }).collect();
        let fresh: Vec<Out> = pool.iter().map(run).collect();
        if fresh.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { obs.count("skipped_crash", 1); return Ok(()); }
        let times = if many { 65_530 + r.below(20) } else if long { 20 } else { 300 };
        let seed = r.u64();
        let stop: Vec<usize> = pool.iter().map(|_| if r.chance(3, 4) { usize::MAX } else { r.below(9) }).collect();
        let res = catch(|| {
            let mut q = Rng::new(seed);
            let mut p = http_box::http1::Parser::new();
            for i in 0..times {
                let x = q.below(pool.len());
                init(&mut p, &pool[x]);
                let abandon = i % 5 == 4 && i + 1 < times && stop[x] < usize::MAX;
                if abandon {
                    let base = p.byte_count();
                    let mut d = Drv::new(&pool[x], base);
                    let mut k = 0;
                    while !d.done && k < stop[x] { d.step(&mut p); k += 1; }
                    continue;
                }
                let o = drive(&mut p, &pool[x], &[], false);
                if o.fin != fresh[x].fin || o.off != fresh[x].off || o.log != fresh[x].log || o.snaps != fresh[x].snaps { return Some((i, x, o)); }
            }
            None
        });
        obs.runs += times as u64;
        obs.count("uses_of_one_parser", times as u64);
        obs.nontrivial(pool[0].hash() ^ seed);
        match res {
            Err(m) => Err(format!("panic: {} | one parser for {} messages of {:?}", m, times, pool)),
            Ok(Some((i, x, o))) => Err(format!("use {} of a parser behaves differently | {:?} | fresh parser: {} | used parser: {}", i, pool[x], fresh[x].describe(), o.describe())),
            Ok(None) => Ok(()),
        }
    })
}

/// the same for HTTP/2
fn w_reuse2(n: u64) -> Wk {
    wk("reset-hundreds-of-times", n, |k, r, obs| {
        let many = k % 200 == 7;
        let pool: Vec<Case> = (0..r.range(1, 6)).map(|_| {
            let mut c = if r.chance(1, 30) { g::long(r, Mode::H2) } else { h2::any2(r, false) };
            c.frags = if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) };
            if r.chance(1, 4) { c.intr = g::intr(r); c.after = g::after(r); }
            c
        }).collect();
        let fresh: Vec<Out> = pool.iter().map(run).collect();
        if fresh.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { obs.count("skipped_crash", 1); return Ok(()); }
        let times = if many && pool.iter().all(|c| c.input.len() < 100) { 65_540 } else { 300 };
        let seed = r.u64();
        let res = catch(|| {
            let mut q = Rng::new(seed);
            let mut p = http_box::http2::Parser::new();
            for i in 0..times {
                let x = q.below(pool.len());
                if i > 0 { p.reset(); }
                let o = drive(&mut p, &pool[x], &[], false);
                if o.fin != fresh[x].fin || o.off != fresh[x].off || o.log != fresh[x].log || o.snaps != fresh[x].snaps { return Some((i, x, o)); }
            }
            None
        });
        obs.runs += times as u64;
        obs.count("uses_of_one_parser", times as u64);
        obs.nontrivial(pool[0].hash() ^ seed);
        match res {
            Err(m) => Err(format!("panic: {} | one parser for {} streams of {:?}", m, times, pool)),
            Ok(Some((i, x, o))) => Err(format!("use {} of a parser behaves differently | {:?} | fresh parser: {} | used parser: {}", i, pool[x], fresh[x].describe(), o.describe())),
            Ok(None) => Ok(()),
        }
    })
}

/// state() of a parser that was created, initialised or reset after every prefix of every template
fn w_initial_states() -> Wk {
    let t: Vec<Case> = all_templates(ALLM);
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1) * 6));
    sweep("states-after-initialisation", ix.total(), move |k, _, obs| {
        let (i, s) = ix.get(k);
        let (c, at, to) = (&t[i], s as usize / 6, s % 6);
        obs.runs += 1;
        obs.nontrivial(k);
        let r = catch(|| {
            let mut h = Rec::new(if at % 3 == 2 { Intr::All } else { Intr::None }, c.cls.clone(), 1 << 20);
            if c.mode == Mode::H2 {
                let mut p = http_box::http2::Parser::new();
                let a = Px::name(&p);
                let _ = p.resume(&mut h, &c.input[..at]);
                p.reset();
                return (a, "FrameLength1", Px::name(&p), "FrameLength1");
            }
            let mut p = http_box::http1::Parser::new();
            init(&mut p, c);
            fn first(m: Mode) -> &'static str { match m { Mode::New | Mode::Head => "StripDetect", Mode::Chunked => "ChunkLength1", Mode::Multipart => "MultipartHyphen1", Mode::Url => "FirstUrlEncodedName", Mode::H2 => "FrameLength1" } }
            let a = Px::name(&p);
            let _ = p.resume(&mut h, &c.input[..at]);
            let to = match to { 0 => { p.init_head(); Mode::Head } 1 => { p.init_chunked(); Mode::Chunked } 2 => { p.init_multipart(); Mode::Multipart } 3 => { p.init_url_encoded(); Mode::Url } _ => { p.reset(); c.mode } };
            if k % 2 == 0 { p.set_boundary(b"x"); p.set_length(3); }
            (a, first(c.mode), Px::name(&p), first(to))
        });
        match r {
            Err(_) => Ok(()),
            Ok((a, wa, b, wb)) => {
                obs.sample(|| format!("{} bytes of {:?}, then initialisation {}: {} -> {}", at, c, to, a, b));
                if a != wa { return Err(format!("state() of an initialised parser is {}, expected {} | {:?}", a, wa, c)); }
                if b != wb { return Err(format!("state() is {} after initialisation {}, expected {} | {} bytes of {:?}", b, to, wb, at, c)); }
                Ok(())
            }
        }
    })
}

/// what results print is what they are
fn w_printed_results(n: u64) -> Wk {
    wk("printed-results", n, |_, r, obs| {
        let m = *r.pick(H1M);
        let c = g::any(r, m, false);
        obs.runs += 1;
        let x = catch(|| {
            let mut p = http_box::http1::Parser::new();
            init(&mut p, &c);
            let mut h = handler(&c);
            match p.resume(&mut h, &c.input) {
                Err(e) => { let (k, b) = ek(e); Some((format!("{} {:?}", e, e), format!("{:?}", k), b)) }
                Ok(_) => None,
            }
        });
        if let Ok(Some((text, name, byte))) = x {
            obs.nontrivial(c.hash());
            obs.sample(|| format!("{:?} -> {}", c, text));
            let w = crate::part::words(&text);
            let (a, b) = (w.iter().filter(|x| **x == name).count(), w.iter().filter(|x| **x == byte.to_string()).count());
            if a != 2 || name != "Dead" && b != 2 { return Err(format!("the error {} {} is printed as \"{}\" | {:?}", name, byte, text, c)); }
        }
        Ok(())
    })
}

/// results, errors and states of a few runs, each compared with each (C34)
fn w_compared_runs(n: u64) -> Wk {
    wk("values-of-runs", n, |_, r, obs| {
        let cs: Vec<Case> = (0..r.range(1, 5)).map(|_| { let mut c = any_case(r); if c.input.len() > 400 { c.input.truncate(400); } c.frags = if r.bool() { vec![1; c.input.len()] } else { g::frags(r, c.input.len()) }; c }).collect();
        for c in &cs { obs.nontrivial(c.hash()); }
        match catch(|| crate::part::compared_runs(&cs)) {
            Ok(Ok(n)) => { obs.runs += 1; obs.count("comparisons", n); Ok(()) }
            Ok(Err(m)) => Err(format!("{} | {:?}", m, cs)),
            Err(_) => Ok(()), // C01's business
        }
    })
}

fn any_case(r: &mut Rng) -> Case {
    let mode = *r.pick(ALLM);
    let mut c = if r.chance(1, 60) { g::long(r, mode) } else if mode == Mode::H2 { h2::any2(r, false) } else { g::any(r, mode, false) };
    c.frags = g::frags(r, c.input.len());
    if r.bool() { c.intr = g::intr(r); c.after = g::after(r); }
    c
}

enum Any<'a> { P1(http_box::http1::Parser<'a, Rec>), P2(http_box::http2::Parser<'a, Rec>) }
impl<'a> Any<'a> {
    fn new(c: &'a Case) -> Any<'a> {
        if c.mode == Mode::H2 { Any::P2(http_box::http2::Parser::new()) } else { let mut p = http_box::http1::Parser::new(); init(&mut p, c); Any::P1(p) }
    }
    fn px(&mut self) -> &mut dyn Px { match self { Any::P1(p) => p, Any::P2(p) => p } }
}

fn same(a: &Out, b: &Out) -> bool { a.fin == b.fin && a.off == b.off && a.log == b.log && a.snaps == b.snaps }

/// parsers stepped alternately on one thread (C26)
fn w_interleave(n: u64) -> Wk {
    wk("interleaved-parsers", n, |_, r, obs| {
        let cs: Vec<Case> = (0..r.range(2, 8)).map(|_| any_case(r)).collect();
        let solo: Vec<Out> = cs.iter().map(run).collect();
        if solo.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { return Ok(()); }
        let seed = r.u64();
        let us: Vec<(UK, Vec<u8>)> = (0..3).map(|i| { let k = match i { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; (k, ut::any(r, k)) }).collect();
        let usolo: Vec<ut::URes> = us.iter().map(|(k, s)| ut::sut(*k, s)).collect();
        let outs = catch(|| {
            let mut r = Rng::new(seed);
            let mut ps: Vec<(Any, Drv)> = cs.iter().map(|c| { let mut p = Any::new(c); let b = p.px().total(); (p, Drv::new(c, b)) }).collect();
            let mut left: Vec<usize> = (0..ps.len()).collect();
            let mut q = http_box::util::QueryIterator::new(&us[0].1);
            let mut f = if let UK::Field { delim, norm } = us[1].0 { http_box::util::FieldIterator::new(&us[1].1, delim, norm) } else { unreachable!() };
            let (mut qi, mut fi, mut sw) = (vec![], vec![], 0u64);
            while !left.is_empty() {
                let x = r.below(left.len());
                let i = left[x];
                let (px, d) = &mut ps[i]; d.step(px.px());
                if ps[i].1.done { left.remove(x); }
                sw += 1;
                match r.below(6) {
                    0 => if let Some((n, v)) = q.next() { qi.push((n.into_bytes(), v.map(|v| v.into_bytes()))); },
                    1 => if let Some((n, v)) = f.next() { fi.push((n.into_bytes(), v.map(|v| v.into_bytes()))); },
                    2 => { let _ = http_box::util::decode(&us[2].1); }
                    _ => (),
                }
            }
            for _ in 0..4096 { match q.next() { Some((n, v)) => qi.push((n.into_bytes(), v.map(|v| v.into_bytes()))), None => break } }
            for _ in 0..4096 { match f.next() { Some((n, v)) => fi.push((n.into_bytes(), v.map(|v| v.into_bytes()))), None => break } }
            (ps.into_iter().map(|p| p.1.o).collect::<Vec<_>>(), sw, qi, fi)
        });
        let (outs, sw, qi, fi) = match outs { Ok(x) => x, Err(m) => return Err(format!("panic when interleaved: {} | {:?}", m, cs)) };
        obs.count("switches", sw);
        obs.nontrivial(seed);
        for (i, o) in outs.iter().enumerate() {
            obs.out(o);
            if !same(o, &solo[i]) { return fail(&cs[i], o, format!("behaves differently next to {} other parsers, alone: {} | others: {:?}", cs.len() - 1, solo[i].describe(), cs)); }
        }
        obs.sample(|| format!("{} parsers with {} steps: {:?}", cs.len(), sw, cs));
        if usolo[0].bad.is_none() && qi != usolo[0].items { return Err(format!("query iteration next to others yields {:?}, alone {:?} | {:?}", ut::Items(&qi), ut::Items(&usolo[0].items), show(&us[0].1))); }
        if usolo[1].bad.is_none() && fi != usolo[1].items { return Err(format!("field iteration next to others yields {:?}, alone {:?} | {:?}", ut::Items(&fi), ut::Items(&usolo[1].items), show(&us[1].1))); }
        Ok(())
    })
}

/// parsers and utilities that are used in the callbacks of other parsers, two deep (C26)
fn w_nested(n: u64) -> Wk {
    wk("in-callbacks-of-others", n, |_, r, obs| {
        let cs: Vec<Case> = (0..3).map(|_| { let mut c = any_case(r); if r.bool() { c.frags = g::frags(r, c.input.len()); } c }).collect();
        let solo: Vec<Out> = cs.iter().map(run).collect();
        if solo.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { return Ok(()); }
        let us: Vec<(UK, Vec<u8>)> = (0..2).map(|_| { let k = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; (k, ut::any(r, k)) }).collect();
        let usolo: Vec<ut::URes> = us.iter().map(|(k, s)| ut::sut(*k, s)).collect();
        let most = [r.range(1, 30), r.range(1, 30)];
        let outs = catch(|| {
            let mut ps: Vec<Any> = cs.iter().map(Any::new).collect();
            let ts: Vec<usize> = ps.iter_mut().map(|p| p.px().total()).collect();
            let mut ds: Vec<Drv> = cs.iter().zip(&ts).map(|(c, t)| Drv::new(c, *t)).collect();
            ds[0].h.also = true;
            ds[1].h.also = true;
            let (mut steps, mut bad) = (0u64, None);
            {
                let (p0, pr) = ps.split_at_mut(1); let (p1, p2) = pr.split_at_mut(1);
                let (d0, dr) = ds.split_at_mut(1); let (d1, d2) = dr.split_at_mut(1);
                let (mut used1, mut used2) = (0, 0);
                let mut deep = || {
                    if used2 >= most[1] { return; }
                    used2 += 1;
                    if !d2[0].done { d2[0].step(p2[0].px()); steps += 1; }
                    let i = used2 % 2;
                    if used2 < 4 { let u = ut::sut(us[i].0, &us[i].1); if u != usolo[i] { bad = Some((i, u)); } }
                };
                let mut mid = || {
                    if used1 >= most[0] { return; }
                    used1 += 1;
                    if !d1[0].done { d1[0].step(p1[0].px()); }
                };
                let fs: Vec<*mut (dyn FnMut() + '_)> = vec![&mut deep, &mut mid];
                crate::ev::ALSO.with(|a| *a.borrow_mut() = unsafe { std::mem::transmute(fs) });
                let x = catch(|| while !d0[0].done { d0[0].step(p0[0].px()); });
                crate::ev::ALSO.with(|a| a.borrow_mut().clear());
                if let Err(m) = x { panic!("{}", m); }
            }
            for (p, d) in ps.iter_mut().zip(ds.iter_mut()) { while !d.done { d.step(p.px()); } }
            (ds.into_iter().map(|d| d.o).collect::<Vec<_>>(), steps, bad)
        });
        let (outs, steps, bad) = match outs { Ok(x) => x, Err(m) => return Err(format!("panic when used in callbacks: {} | {:?}", m, cs)) };
        obs.count("calls_in_callbacks", steps);
        obs.nontrivial(cs[0].hash() ^ cs[1].hash());
        for (i, o) in outs.iter().enumerate() {
            obs.out(o);
            if !same(o, &solo[i]) { return fail(&cs[i], o, format!("behaves differently when parsers (this is number {}) are used in each other's callbacks, alone: {} | all: {:?}", i, solo[i].describe(), cs)); }
        }
        if let Some((i, u)) = bad { return Err(format!("in a callback {:?} of \"{}\" gives {:?}, alone {:?}", us[i].0, show(&us[i].1), u, usolo[i])); }
        Ok(())
    })
}

fn field_k(r: &mut Rng) -> UK { ut::field_kind(r) }

/// the same exchanges on several threads at once (C26)
fn w_threads(n: u64) -> Wk {
    wk("parallel-parsers", n, |_, r, obs| {
        let cs: Vec<Case> = (0..24).map(|_| { let mut c = any_case(r); if c.mode == Mode::H2 || r.chance(3, 4) { c.frags = vec![1 + r.below(3); c.input.len()]; } c }).collect();
        let us: Vec<(UK, Vec<u8>)> = (0..24).map(|_| { let k = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; (k, ut::any(r, k)) }).collect();
        let solo: Vec<Out> = cs.iter().map(run).collect();
        let usolo: Vec<ut::URes> = us.iter().map(|(k, s)| ut::sut(*k, s)).collect();
        if solo.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { return Ok(()); }
        let nt = 4;
        let bar = std::sync::Barrier::new(nt);
        let reps = 6;
        let res: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt).map(|t| {
                let (bar, cs, us, solo, usolo) = (&bar, &cs, &us, &solo, &usolo);
                s.spawn(move || {
                    bar.wait();
                    for k in 0..reps * cs.len() {
                        let i = (k * (2 * t + 1) + t * 7) % cs.len();
                        let o = run(&cs[i]);
                        if !same(&o, &solo[i]) { return Some(format!("on a thread next to {} others: {} | alone: {} | case: {:?}", nt - 1, o.describe(), solo[i].describe(), cs[i])); }
                        let u = ut::sut(us[i].0, &us[i].1);
                        if u != usolo[i] { return Some(format!("on a thread next to {} others {:?} of \"{}\" gives {:?}, alone {:?}", nt - 1, us[i].0, show(&us[i].1), u, usolo[i])); }
                    }
                    None
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("harness thread died".into()))).collect()
        });
        obs.runs += (nt * reps * cs.len()) as u64;
        obs.count("parallel_runs", (nt * reps * cs.len()) as u64);
        for c in &cs { obs.nontrivial(c.hash()); }
        match res.into_iter().flatten().next() { Some(m) => Err(m), None => Ok(()) }
    })
}

/// parsers that are handed from thread to thread and moved in memory between the calls, next to others (C26)
fn w_handed(n: u64) -> Wk {
    struct Bag<'a>(Vec<(Any<'a>, Drv<'a>)>, Rng, u64);
    unsafe impl<'a> Send for Bag<'a> {}
    fn steps(mut b: Bag) -> Bag {
        for _ in 0..b.1.range(1, 9) {
            if b.0.is_empty() { break; }
            let i = b.1.below(b.0.len());
            if !b.0[i].1.done { let (p, d) = &mut b.0[i]; d.step(p.px()); b.2 += 1; }
        }
        b
    }
    wk("handed-from-thread-to-thread", n, |_, r, obs| {
        let cs: Vec<Case> = (0..r.range(1, 5)).map(|_| { let mut c = any_case(r); if r.chance(2, 3) { c.frags = vec![1 + r.below(3); c.input.len().min(60)]; } c }).collect();
        let solo: Vec<Out> = cs.iter().map(run).collect();
        if solo.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { return Ok(()); }
        let seed = r.u64();
        let hops = std::sync::atomic::AtomicU64::new(0);
        let outs = catch(|| {
            let mut b = Bag(cs.iter().map(|c| { let mut p = Any::new(c); let t = p.px().total(); (p, Drv::new(c, t)) }).collect(), Rng::new(seed), 0);
            let mut turn = 0;
            while b.0.iter().any(|x| !x.1.done) {
                turn += 1;
                b = if turn < 40 {
                    hops.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    match std::thread::scope(|s| s.spawn(move || { let x = b; catch(move || { let y = x; Bag(steps(y).0, Rng::new(mix_seed(seed, turn)), 0) }) }).join()) {
                        Ok(Ok(x)) => x,
                        Ok(Err(m)) => panic!("{}", m),
                        Err(_) => panic!("the thread died"),
                    }
                } else { steps(b) };
                // and to another place in memory
                b.0 = b.0.into_iter().rev().collect::<std::collections::VecDeque<_>>().into_iter().rev().collect();
                if turn % 3 == 0 { b = *Box::new(b); }
            }
            b.0.into_iter().map(|p| p.1.o).collect::<Vec<_>>()
        });
        let outs = match outs { Ok(x) => x, Err(m) => return Err(format!("panic when handed from thread to thread: {} | {:?}", m, cs)) };
        obs.count("changes_of_thread", hops.load(std::sync::atomic::Ordering::Relaxed));
        obs.nontrivial(seed);
        for (i, o) in outs.iter().enumerate() {
            obs.out(o);
            if !same(o, &solo[i]) { return fail(&cs[i], o, format!("behaves differently when handed from thread to thread, alone: {}", solo[i].describe())); }
        }
        Ok(())
    })
}
fn mix_seed(a: u64, b: u64) -> u64 { Rng::new(a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).u64() }

/// Messages whose boundary lies in the same piece of memory as the boundary of the message before (C13).
fn w_reinit_memory(n: u64) -> Wk {
    wk("boundary-in-the-same-memory", n, |_, r, obs| {
        let many = r.range(2, 4);
        let first = g::valid(r, Mode::Multipart, false);
        let len = first.boundary.len().min(64).max(1);
        let style = r.below(3);
        let mut seen: Vec<Vec<u8>> = vec![];
        let cs: Vec<Case> = (0..many).map(|_| {
            let mut b: Vec<u8> = match (style, seen.last()) {
                (0, Some(p)) => { let mut b = p.clone(); let i = r.below(b.len()); b[i] = *r.pick(b"abXY09-_"); b }
                (1, Some(p)) if r.bool() => { let mut b = p.clone(); b.reverse(); b }
                _ => (0..if style == 2 { r.range(1, len) } else { len }).map(|_| *r.pick(b"ab-Xz09_")).collect(),
            };
            if b.is_empty() { b.push(b'b'); }
            let old = seen.last().cloned().unwrap_or(b"q".to_vec());
            seen.push(b.clone());
            let mut v = [&b"--"[..], &b].concat();
            for _ in 0..r.below(3) {
                v.extend(b"\r\nA: b\r\n\r\n");
                match r.below(4) { 0 => { v.extend(b"\r\n--"); v.extend(&old); v.extend(b"--"); } 1 => { v.extend(b"\r\n--"); v.extend(&old); v.extend(b"\r\n\r\n"); } _ => { let k = r.below(20); v.extend(g::payload(r, k)); } }
                v.extend(b"\r\n--"); v.extend(&b);
            }
            v.extend(b"--");
            if r.chance(1, 6) { let k = r.below(v.len()); v.truncate(k); }
            let mut c = Case::new(Mode::Multipart, v);
            c.boundary = b;
            c.frags = if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) };
            if r.chance(1, 4) { c.intr = g::intr(r); c.after = g::after(r); }
            c
        }).collect();
        let by_reset: Vec<bool> = (0..many).map(|_| r.chance(1, 3)).collect();
        let fresh: Vec<Out> = cs.iter().map(run).collect();
        if fresh.iter().any(|o| matches!(o.fin, Fin::Panic(_))) { return Ok(()); }
        let used = catch(|| {
            // one piece of memory for every boundary; it changes only between messages, when the parser may not look at it
            let m: *mut u8 = Box::into_raw(vec![0u8; 256].into_boxed_slice()) as *mut u8;
            let outs: Vec<Out> = {
                let mut p = http_box::http1::Parser::new();
                cs.iter().enumerate().map(|(i, c)| {
                    let b: &'static [u8] = unsafe { std::ptr::copy_nonoverlapping(c.boundary.as_ptr(), m, c.boundary.len()); std::slice::from_raw_parts(m, c.boundary.len()) };
                    if i > 0 && by_reset[i] { p.reset(); } else { p.init_multipart(); }
                    p.set_boundary(b);
                    drive(&mut p, c, &[], false)
                }).collect()
            };
            unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(m, 256))); }
            outs
        });
        obs.runs += many as u64;
        obs.nontrivial(cs[0].hash() ^ cs[1].hash());
        match used {
            Err(m) => Err(format!("panic: {} | {:?}", m, cs)),
            Ok(outs) => {
                for (i, o) in outs.iter().enumerate() {
                    obs.out(o);
                    let f = &fresh[i];
                    if o.fin != f.fin || o.off != f.off || o.log != f.log || o.snaps != f.snaps { return Err(format!("a parser whose boundaries lie in the same memory behaves differently at message {} (reset: {:?}) of {:?} | fresh parser: {} | used parser: {}", i, by_reset, cs, f.describe(), o.describe())); }
                }
                Ok(())
            }
        }
    })
}

/// a handler panics in some callback; the parser is started anew afterwards (C13)
fn w_reinit_panics(n: u64) -> Wk {
    wk("after-a-handler-panicked", n, |_, r, obs| {
        let frames = r.chance(1, 3);
        let mode = if frames { Mode::H2 } else { *r.pick(&[Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url]) };
        let hm = if frames { Mode::H2 } else { *r.pick(&[Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url]) };
        let one = |r: &mut Rng, m: Mode| { let mut c = if m == Mode::H2 { h2::any2(r, false) } else if r.chance(3, 4) { g::valid(r, m, false) } else { g::any(r, m, false) }; c.frags = if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) }; c };
        let h = one(r, hm);
        let mut c = one(r, mode);
        if r.chance(1, 3) { c.intr = g::intr(r); c.after = g::after(r); }
        let (whole, fresh) = (run(&h), run(&c));
        if matches!(whole.fin, Fin::Panic(_)) || matches!(fresh.fin, Fin::Panic(_)) || whole.ncb == 0 { return Ok(()); }
        let at = r.below(whole.ncb as usize) as u64;
        let by_reset = frames || hm == mode && r.bool();
        let used = catch(|| {
            macro_rules! hist { ($p:expr) => {{
                let base = $p.byte_count();
                let mut d = Drv::new(&h, base);
                d.h.budget = at;
                catch(|| { while !d.done { d.step(&mut $p); } }).is_err()
            }} }
            if frames {
                let mut p = http_box::http2::Parser::new();
                let b = hist!(p);
                p.reset();
                (b, drive(&mut p, &c, &[], false))
            } else {
                let mut p = http_box::http1::Parser::new();
                init(&mut p, &h);
                let b = hist!(p);
                if by_reset { p.reset(); params(&mut p, &c); } else { init(&mut p, &c); }
                (b, drive(&mut p, &c, &[], false))
            }
        });
        obs.runs += 1;
        match used {
            Err(m) => Err(format!("panic: {} | callback {} of {:?} panicked, then {:?}", m, at, h, c)),
            Ok((b, o)) => {
                if b { obs.count("panics_of_handlers", 1); obs.nontrivial(c.hash() ^ h.hash() ^ at); }
                obs.out(&o);
                if o.fin != fresh.fin || o.off != fresh.off || o.log != fresh.log || o.snaps != fresh.snaps { return Err(format!("a parser behaves differently after callback {} of {:?} panicked and it was started anew by {} | {:?} | fresh parser: {} | used parser: {}", at, h, if by_reset { "reset()" } else { "init" }, c, fresh.describe(), o.describe())); }
                Ok(())
            }
        }
    })
}

/// what is left in memory when parsers and utilities have been used many times (C23)
fn w_left(n: u64) -> Wk {
    wk("memory-left-after-hundreds-of-uses", n, |k, r, obs| {
        let util = k % 3 == 0;
        let (mut text, mut uk, mut c) = (vec![], UK::Decode, None);
        if util { uk = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; text = ut::any(r, uk); } else { c = Some(any_case(r)); }
        if text.len() > 3000 || c.as_ref().map_or(false, |c: &Case| c.input.len() > 3000) { return Ok(()); }
        let once = || match &c { None => !matches!(ut::sut(uk, &text).bad, Some(ref m) if m.starts_with("panic")), Some(c) => !matches!(run(c).fin, Fin::Panic(_)) };
        for _ in 0..3 { if !once() { return Ok(()); } }
        let left = misc::left(|| { for _ in 0..300 { once(); } });
        obs.runs += 300;
        match &c { Some(c) => obs.nontrivial(c.hash()), None => obs.nontrivial(crate::rng::hash_bytes(7, &text)) }
        obs.count("uses_of_a_parser_or_utility", 300);
        if left > 1024 { return Err(format!("{} bytes of memory are left after 300 uses | {:?} | {:?} of \"{}\"", left, c, uk, show(&text))); }
        Ok(())
    })
}

/// memory of the parser over large inputs (C23)
fn w_memory(n: usize) -> Wk {
    let sh = misc::shapes();
    let steps = [usize::MAX, 4096, 61, 7, 1];
    let total = sh.len() as u64 * 5 * 2;
    sweep("memory-of-large-inputs", total, move |k, _, obs| {
        let (s, k) = (&sh[k as usize % sh.len()], k as usize / sh.len());
        let step = steps[k % 5];
        let n = if step < 8 { n / 4 } else { n };
        let input = (s.make)(n);
        let step = step.min(input.len());
        let every = if k / 5 == 1 { 3 } else { 0 };
        let r = catch(|| misc::peak(|| misc::feed(s, &input, step, every, n)));
        obs.runs += 1;
        let (peak, num, f) = match r { Ok(x) => x, Err(_) => { obs.count("skipped_crash", 1); return Ok(()); } };
        obs.count("bytes_parsed", f.used as u64);
        obs.count("callbacks", f.cbs);
        obs.count("resume_calls", f.calls);
        obs.count("allocations_by_the_library", num);
        if let Some(x) = obs.n.get_mut("largest_memory_use_in_bytes") { *x = (*x).max(peak as u64); } else { obs.count("largest_memory_use_in_bytes", peak as u64); }
        obs.nontrivial(crate::rng::hash_str(&s.name) ^ step as u64 ^ every << 50);
        obs.sample(|| format!("{} {} bytes in slices of {}: peak {} bytes", s.name, f.used, step, peak));
        let limit = 4096 + 8 * s.boundary.len() as i64;
        if peak > limit { return Err(format!("the parser held {} bytes of memory while parsing {} bytes of {} in slices of {}", peak, f.used, s.name, step)); }
        Ok(())
    })
}

/// the same for messages with some part repeated
fn w_pumped(name: &'static str, num: u64, n: usize, memory: bool) -> Wk {
    wk(name, num, move |_, r, obs| {
        let s = misc::pumped(r);
        let n = 1 + r.below(n);
        let input = (s.make)(n);
        let step = *r.pick(&[usize::MAX, 4096, 61, 7, 1]);
        let step = step.min(input.len());
        let every = *r.pick(&[0, 0, 3, 1]);
        let (peak, num, f) = match catch(|| misc::peak(|| misc::feed(&s, &input, step, every, n))) { Ok(x) => x, Err(_) => { obs.count("skipped_crash", 1); return Ok(()); } };
        obs.runs += 1;
        obs.count("bytes_parsed", f.used as u64);
        obs.count("callbacks", f.cbs);
        obs.count("resume_calls", f.calls);
        obs.nontrivial(crate::rng::hash_bytes(step as u64 ^ every << 50, &input));
        obs.sample(|| format!("{} {} bytes in slices of {}: {} callbacks, peak {} bytes", s.name, f.used, step, f.cbs, peak));
        if memory {
            obs.count("allocations_by_the_library", num);
            if let Some(x) = obs.n.get_mut("largest_memory_use_in_bytes") { *x = (*x).max(peak as u64); } else { obs.count("largest_memory_use_in_bytes", peak as u64); }
            if peak > 4096 + 8 * s.boundary.len() as i64 { return Err(format!("the parser held {} bytes of memory while parsing {} bytes of {} in slices of {}", peak, f.used, s.name, step)); }
            return Ok(());
        }
        if f.cbs > 64 + 8 * f.n { return Err(format!("{} callbacks for {} bytes of {} in slices of {}", f.cbs, f.n, s.name, step)); }
        if f.bytes > 64 + 2 * f.n { return Err(format!("{} bytes delivered for {} bytes of {} in slices of {}", f.bytes, f.n, s.name, step)); }
        if f.calls > 64 + 8 * f.n { return Err(format!("{} calls for {} bytes of {} in slices of {}", f.calls, f.n, s.name, step)); }
        Ok(())
    })
}

/// memory use of tens of thousands of elements that all differ (C23)
fn w_different(num: u64, n: usize) -> Wk {
    wk("memory-of-different-elements", num, move |_, r, obs| {
        let (s, input) = misc::different(r, n);
        let step = (*r.pick(&[usize::MAX, 4096, 61, 7])).min(input.len());
        let every = *r.pick(&[0, 0, 3]);
        let (peak, _, f) = match catch(|| misc::peak(|| misc::feed(&s, &input, step, every, n))) { Ok(x) => x, Err(_) => { obs.count("skipped_crash", 1); return Ok(()); } };
        obs.runs += 1;
        obs.count("bytes_parsed", f.used as u64);
        obs.count("bytes_of_different_elements", f.used as u64);
        obs.count("callbacks", f.cbs);
        obs.nontrivial(crate::rng::hash_bytes(step as u64 ^ every << 50, &input));
        obs.sample(|| format!("{} {} bytes in slices of {}: peak {} bytes", s.name, f.used, step, peak));
        if peak > 4096 + 8 * s.boundary.len() as i64 { return Err(format!("the parser held {} bytes of memory while parsing {} bytes of {} in slices of {}", peak, f.used, s.name, step)); }
        Ok(())
    })
}

/// memory use of one parser that is started anew thousands of times (C23)
fn w_reused_memory(num: u64) -> Wk {
    wk("memory-of-a-parser-used-thousands-of-times", num, |k, r, obs| {
        use http_box::fsm::Success::*;
        let frames = k % 3 == 0;
        let cs: Vec<Case> = (0..r.range(2, 40)).map(|_| {
            let m = if frames { Mode::H2 } else { *r.pick(&[Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url]) };
            let mut c = if m == Mode::H2 { h2::any2(r, false) } else if r.chance(2, 3) { g::valid(r, m, false) } else { g::any(r, m, false) };
            if r.chance(1, 3) { let k = r.below(c.input.len() + 1); c.input.truncate(k); }
            c
        }).collect();
        if cs.iter().any(|c| c.input.len() > 3000 || matches!(run(c).fin, Fin::Panic(_))) { return Ok(()); }
        let most = cs.iter().map(|c| c.boundary.len()).max().unwrap() as i64;
        let by_reset = r.bool();
        let mut bytes = 0u64;
        let (peak, _, _) = match catch(|| misc::peak(|| {
            let mut h = misc::Cnt::new();
            macro_rules! feed { ($p:ident, $c:ident) => ({
                let mut at = 0;
                for _ in 0..1 + $c.input.len() {
                    match $p.resume(&mut h, &$c.input[at..]) { Ok(Callback(n)) => at += n, _ => break }
                }
                bytes += $c.input.len() as u64;
            }) }
            if frames {
                let mut p = http_box::http2::Parser::new();
                for i in 0..3000 { let c = &cs[i % cs.len()]; feed!(p, c); p.reset(); }
            } else {
                let mut p = http_box::http1::Parser::new();
                for i in 0..3000 {
                    let c = &cs[i % cs.len()];
                    match c.mode { Mode::Head => p.init_head(), Mode::Chunked => p.init_chunked(), Mode::Multipart => { p.init_multipart(); p.set_boundary(&c.boundary) } _ => { p.init_url_encoded(); p.set_length(c.length) } }
                    feed!(p, c);
                    if by_reset { p.reset(); }
                }
            }
        })) { Ok(x) => x, Err(_) => { obs.count("skipped_crash", 1); return Ok(()); } };
        obs.runs += 3000;
        obs.count("bytes_parsed", bytes);
        obs.count("uses_of_the_same_parser", 3000);
        obs.nontrivial(cs[0].hash());
        if peak > 4096 + 8 * most { return Err(format!("a parser held {} bytes of memory when it was started anew 3000 times for {:?}", peak, cs)); }
        Ok(())
    })
}

/// callbacks against bytes (C27)
fn w_callbacks(n: usize) -> Wk {
    let sh = misc::shapes();
    sweep("callbacks-per-byte", sh.len() as u64 * 4, move |k, _, obs| {
        let (s, k) = (&sh[k as usize % sh.len()], k as usize / sh.len());
        let input = (s.make)(n);
        let step = [usize::MAX, 4096, 3, 1][k].min(input.len());
        let f = match catch(|| misc::feed(s, &input, step, 0, n)) { Ok(f) => f, Err(_) => { obs.count("skipped_crash", 1); return Ok(()); } };
        obs.runs += 1;
        obs.count("callbacks", f.cbs);
        obs.count("bytes_parsed", f.used as u64);
        obs.nontrivial(crate::rng::hash_str(&s.name) ^ step as u64);
        if f.cbs > 64 + 8 * f.n { return Err(format!("{} callbacks for {} bytes of {} in slices of {}", f.cbs, f.n, s.name, step)); }
        if f.bytes > 64 + 2 * f.n { return Err(format!("{} bytes delivered for {} bytes of {} in slices of {}", f.bytes, f.n, s.name, step)); }
        if f.calls > 64 + 4 * f.n { return Err(format!("{} calls for {} bytes of {} in slices of {}", f.calls, f.n, s.name, step)); }
        Ok(())
    })
}

fn w_guard(n: u64) -> Wk {
    wk("slices-at-inaccessible-pages", n, |_, r, obs| {
        let c = any_case(r);
        if c.input.len() > 60000 || c.boundary.len() > 60000 { return Ok(()); }
        obs.count("cases_above_1000_bytes", (c.input.len() > 1000) as u64);
        for e in [true, false] {
            let (fin, pos, bytes) = misc::guarded(&c, e);
            obs.runs += 1;
            obs.count("bytes_parsed", pos as u64);
            obs.count("bytes_delivered", bytes);
            obs.count("panics", matches!(fin, Fin::Panic(_)) as u64);
            obs.sample(|| format!("{:?} -> {:?} after {}", c, fin, pos));
        }
        obs.nontrivial(c.hash());
        let k = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode };
        let s = ut::any(r, k);
        for e in [true, false] { let x = misc::guarded_util(k, &s, e); obs.count("bytes_of_strings", x as u64); }
        Ok(())
    })
}
fn w_guard_sweep() -> Wk {
    let t = Arc::new(all_templates(ALLM));
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 1) * 4));
    sweep("every-prefix-at-inaccessible-pages", ix.total(), move |k, r, obs| {
        let (i, s) = ix.get(k);
        let mut c = t[i].clone();
        c.input.truncate((s / 4) as usize);
        c.frags = if s % 2 == 0 { vec![c.input.len()] } else { vec![1; c.input.len()] };
        if r.chance(1, 3) { c.intr = g::intr(r); }
        let (_, pos, bytes) = misc::guarded(&c, s & 2 == 0);
        obs.runs += 1;
        obs.count("bytes_parsed", pos as u64);
        obs.count("bytes_delivered", bytes);
        obs.nontrivial(k);
        Ok(())
    })
}

// utilities --------------------------------------------------------------------------------------

pub type UJudge = fn(UK, &[u8], &mut Obs) -> Result<(), String>;

fn unote(k: UK, s: &[u8], r: &ut::URes, obs: &mut Obs) {
    obs.runs += 1;
    obs.count("items", r.items.len() as u64);
    obs.count("errors", r.err.is_some() as u64);
    if !s.is_empty() { obs.nontrivial(crate::rng::hash_bytes(crate::rng::hash_str(&format!("{:?}", k)), s)); }
    obs.sample(|| format!("{:?} \"{}\" -> {:?} {:?}", k, show(s), ut::Items(&r.items), r.err));
}
fn u_model(k: UK, s: &[u8], obs: &mut Obs) -> Result<(), String> {
    let r = ut::sut(k, s);
    unote(k, s, &r, obs);
    match ut::cmp(&r, &ut::model(k, s)) { Some(m) => Err(format!("{} | {:?} of \"{}\"", m, k, show(s))), None => Ok(()) }
}
fn u_utf8(k: UK, s: &[u8], obs: &mut Obs) -> Result<(), String> {
    let r = ut::sut(k, s);
    unote(k, s, &r, obs);
    if let Some(b) = r.bad_utf8 { return Err(format!("a String with the bytes \"{}\" was returned | {:?} of \"{}\"", show(&b), k, show(s))); }
    if r.bad.is_some() { return Ok(()); }
    // instead of being altered: what is returned is what the input denotes
    let m = ut::model(k, s);
    if !m.err.is_empty() && r.err.is_none() { return Err(format!("no error is reported, expected {:?}, items {:?} | {:?} of \"{}\"", m.err, ut::Items(&r.items), k, show(s))); }
    Ok(())
}
fn u_crash(k: UK, s: &[u8], obs: &mut Obs) -> Result<(), String> {
    let r = ut::sut(k, s);
    unote(k, s, &r, obs);
    match r.bad { Some(m) if m.starts_with("panic") || m.contains("does not end") => Err(format!("{} | {:?} of \"{}\"", m, k, show(s))), _ => Ok(()) }
}

fn kinds(k: UK) -> Vec<UK> {
    match k { UK::Field { .. } => vec![UK::Field { delim: b';', norm: true }, UK::Field { delim: b';', norm: false }, UK::Field { delim: b',', norm: true }], x => vec![x] }
}

fn u_wks(k0: UK, name: &'static str, j: UJudge, n: u64, less: u32) -> Vec<Wk> {
    let ks = kinds(k0);
    let mut w = vec![];
    let _ = name;
    // all short strings
    let alphas: Vec<(&'static [u8], &'static [u8], u32)> = match k0 {
        UK::Decode => vec![(b"", b"a+%4fG\x00\x80\xC3", 6), (b"%", b"09afAFgG/:@`", 4)],
        UK::Query => vec![(b"", b"a+%4G&;=\x00", 6), (b"a=", b"b%C3a9&=", 6), (b"a&", b"b%41=;&", 6)],
        UK::Field { .. } => vec![(b"", b"aZ=; \"\\/\x00", 6), (b"a=", b"b\"\\;, \xC3\xA9", 6), (b"a=\"", b"b\"\\; \x00\xE9", 6), (b"", b"A; =,", 8)],
    };
    let ks2 = ks.clone();
    let ix = Idx::new(alphas.iter().map(|a| ut::count(a.1, a.2 - less)));
    w.push(sweep("all-short-strings", ix.total() * ks.len() as u64, move |k, _, obs| {
        let (q, k) = (ks2[k as usize % ks2.len()], k / ks2.len() as u64);
        let (i, m) = ix.get(k);
        let mut s = alphas[i].0.to_vec();
        s.extend(ut::nth(alphas[i].1, m));
        j(q, &s, obs)
    }));
    // every byte everywhere, and every truncation
    let t = ut::templates(k0);
    let ks2 = ks.clone();
    let ix = Idx::new(t.iter().map(|s| (s.len() as u64 + 1) * 513));
    w.push(sweep("every-byte-everywhere", ix.total() * ks.len() as u64, move |k, _, obs| {
        let (q, k) = (ks2[k as usize % ks2.len()], k / ks2.len() as u64);
        let (i, m) = ix.get(k);
        let mut s = t[i].clone();
        let (p, b) = ((m / 513) as usize, m % 513);
        if b == 512 { s.truncate(p); } else if b >= 256 { s.insert(p, b as u8); } else if p < s.len() { s[p] = b as u8; } else { s.push(b as u8); }
        j(q, &s, obs)
    }));
    if !matches!(k0, UK::Field { .. }) {
        w.push(sweep("all-pairs-of-escapes", 65536, move |k, r, obs| {
            let s = format!("%{:02x}%{:02X}", k >> 8, k & 255);
            let s = match r.below(3) { 0 => s, 1 => format!("a{}b", s), _ => format!("x={}&y", s) };
            j(k0, s.as_bytes(), obs)
        }));
        w.push(sweep("all-hex-digits", 65536, move |k, _, obs| j(k0, &[b'x', b'%', (k >> 8) as u8, k as u8, b'y'], obs)));
    }
    let tx = crate::vocab::texts();
    let ks2 = ks.clone();
    w.push(sweep("everyday-texts", (tx.len() * ks.len()) as u64, move |k, _, obs| j(ks2[k as usize % ks2.len()], &tx[k as usize / ks2.len()], obs)));
    let fk = move |r: &mut Rng| if let UK::Field { .. } = k0 { field_k(r) } else { k0 };
    w.push(wk("any-input", n, move |_, r, obs| { let k = fk(r); let s = ut::any(r, k); j(k, &s, obs) }));
    w.push(wk("long-and-many", n / 150, move |_, r, obs| { let k = fk(r); let s = ut::long(r, k); j(k, &s, obs) }));
    w.push(sweep("every-size-of-everything", 5 * (2100 + 12 * 5) * 2, move |k, r, obs| {
        let (shape, k) = (k as usize % 5, k as usize / 10);
        let size = if k < 2100 { k + 1 } else { (32usize << ((k - 2100) / 5)) + (k - 2100) % 5 - 2 };
        let k = fk(r);
        let s = ut::long_at(r, k, shape, size);
        j(k, &s, obs)
    }));
    w
}

/// items built first, then written down, then iterated: independent of the model
fn w_roundtrip(k0: UK, n: u64) -> Wk {
    wk("written-down-and-read-back", n, move |_, r, obs| {
        let k = if let UK::Field { .. } = k0 { field_k(r) } else { k0 };
        let (s, items) = ut::valid(r, k);
        let x = ut::sut(k, &s);
        unote(k, &s, &x, obs);
        if let Some(m) = &x.bad { return Err(format!("{} | {:?} of \"{}\"", m, k, show(&s))); }
        if x.err.is_some() || x.items != items { return Err(format!("yields {:?} {:?}, written down was {:?} | {:?} of \"{}\"", ut::Items(&x.items), x.err, ut::Items(&items), k, show(&s))); }
        Ok(())
    })
}

// byte classes -----------------------------------------------------------------------------------

fn w_classes() -> Wk {
    sweep("byte-classes", 256, |k, _, obs| {
        let b = k as u8;
        obs.nontrivial(k);
        obs.runs += 3;
        let tok = match b { b'!' | b'#'..=b'\'' | b'*' | b'+' | b'-' | b'.' | b'^'..=b'`' | b'|' | b'~' | b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' => true, _ => false };
        let fld = matches!(b, 9 | 0x20 | 0x21 | 0x23..=0x7E | 0x80..=0xFF);
        let quo = matches!(b, 9 | 0x20 | 0x21 | 0x23..=0x5B | 0x5D..=0x7E | 0x80..=0xFF);
        use http_box::byte::*;
        let r = catch(|| (is_token(b), is_header_field(b), is_quoted_header_field(b)));
        match r {
            Err(m) => Err(format!("panic: {} for byte {}", m, b)),
            Ok((x, y, z)) => {
                for (n, got, want) in [("is_token", x, tok), ("is_header_field", y, fld), ("is_quoted_header_field", z, quo)] { if got != want { return Err(format!("{}({:#04x}) is {}", n, b, got)); } }
                Ok(())
            }
        }
    })
}

/// Positions at which a byte class decides: (mode, before, after).
fn w_class_positions() -> Wk {
    const P: &[(&str, Mode, &[u8], &[u8])] = &[
        ("method", Mode::Head, b"GE", b"T / HTTP/1.1\r\n\r\n"), ("url", Mode::Head, b"GET /", b"x HTTP/1.1\r\n\r\n"), ("first url byte", Mode::Head, b"GET ", b"x HTTP/1.1\r\n\r\n"),
        ("reason", Mode::Head, b"HTTP/1.1 200 A", b"B\r\n\r\n"), ("first header name byte", Mode::Head, b"GET / HTTP/1.1\r\n", b"ame: v\r\n\r\n"), ("header name", Mode::Head, b"GET / HTTP/1.1\r\nna", b"me: v\r\n\r\n"),
        ("second header name", Mode::Head, b"GET / HTTP/1.1\r\nHost: x\r\nNa", b"me: v\r\n\r\n"), ("first header value byte", Mode::Head, b"GET / HTTP/1.1\r\nname: ", b"v\r\n\r\n"), ("header value", Mode::Head, b"GET / HTTP/1.1\r\nname: v", b"v\r\n\r\n"),
        ("quoted header value", Mode::Head, b"GET / HTTP/1.1\r\nname: \"v", b"v\"\r\n\r\n"), ("escaped header byte", Mode::Head, b"GET / HTTP/1.1\r\nname: \"v\\", b"v\"\r\n\r\n"), ("after a quote", Mode::Head, b"GET / HTTP/1.1\r\nname: \"v\"", b"v\r\n\r\n"),
        ("response header name", Mode::Head, b"HTTP/1.1 200 OK\r\nna", b"me: v\r\n\r\n"), ("response header value", Mode::Head, b"HTTP/1.1 200 OK\r\nname: v", b"v\r\n\r\n"),
        ("extension name", Mode::Chunked, b"1;na", b"me=v\r\nx\r\n0\r\n\r\n"), ("first extension name byte", Mode::Chunked, b"1;", b"me=v\r\nx\r\n0\r\n\r\n"), ("extension value", Mode::Chunked, b"1;n=v", b"v\r\nx\r\n0\r\n\r\n"), ("first extension value byte", Mode::Chunked, b"1;n=", b"v\r\nx\r\n0\r\n\r\n"),
        ("quoted extension value", Mode::Chunked, b"1;n=\"v", b"v\"\r\nx\r\n0\r\n\r\n"), ("escaped extension byte", Mode::Chunked, b"1;n=\"v\\", b"v\"\r\nx\r\n0\r\n\r\n"), ("trailer name", Mode::Chunked, b"0\r\nna", b"me: v\r\n\r\n"), ("trailer value", Mode::Chunked, b"0\r\nname: v", b"v\r\n\r\n"),
        ("chunk data", Mode::Chunked, b"3\r\na", b"b\r\n0\r\n\r\n"), ("part header name", Mode::Multipart, b"--b\r\nna", b"me: v\r\n\r\nx\r\n--b--"), ("part header value", Mode::Multipart, b"--b\r\nname: v", b"v\r\n\r\nx\r\n--b--"), ("part data", Mode::Multipart, b"--b\r\n\r\nx", b"x\r\n--b--"),
        ("url encoded name", Mode::Url, b"na", b"me=v"), ("url encoded value", Mode::Url, b"n=v", b"v&x"), ("chunk length", Mode::Chunked, b"1", b"\r\nxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"),
    ];
    sweep("bytes-in-the-grammar", P.len() as u64 * 256 * 3, |k, _, obs| {
        let (v, k) = (k % 3, k / 3);
        let (p, b) = (&P[(k / 256) as usize], k as u8);
        let mut s = p.2.to_vec();
        s.push(b);
        let at = s.len();
        s.extend(p.3);
        let c = Case::new(p.1, s);
        let c = match v { 0 => c, 1 => split2(&c, at - 1), _ => c.with_frags(vec![1; c.input.len()]) };
        let m = Model::run(&c);
        let o = run(&c);
        note(&c, &o, obs);
        // the byte is accepted or rejected, and if accepted delivered
        let rej = |f: &Fin, off: usize| matches!(f, Fin::Err(..)) && off <= at;
        if let Fin::Panic(_) | Fin::Broken = o.fin { return fail(&c, &o, format!("byte {:#04x} in {}", b, p.0)); }
        if rej(&m.fin, m.off) != rej(&o.fin, o.off) { return fail(&c, &o, format!("byte {:#04x} in {} is {}", b, p.0, if rej(&o.fin, o.off) { "rejected" } else { "accepted" })); }
        if let Fin::Finished = m.fin { if let Some(x) = cmp_events(&o.log, &m.log, false) { return fail(&c, &o, format!("byte {:#04x} in {}: {}", b, p.0, x)); } }
        Ok(())
    })
}

fn w_class_fields() -> Wk {
    sweep("bytes-in-field-parameters", 256 * 4 * 2, |k, _, obs| {
        let (norm, k) = (k % 2 == 0, k / 2);
        let (w, b) = (k / 256, k as u8);
        let s: Vec<u8> = match w { 0 => [b"na", &[b][..], b"me=v; x"].concat(), 1 => [b"n=v", &[b][..], b"v; x"].concat(), 2 => [b"n=\"v", &[b][..], b"v\"; x"].concat(), _ => [b"n; m", &[b][..], b"=\"q\""].concat() };
        u_model(UK::Field { delim: b';', norm }, &s, obs)
    })
}

// code tables ------------------------------------------------------------------------------------

fn w_codes() -> Vec<Wk> {
    fn c(obs: &mut Obs, k: u64, r: Result<Result<(), String>, String>) -> Result<(), String> {
        obs.runs += 1;
        obs.nontrivial(k);
        match r { Ok(x) => x, Err(m) => Err(format!("panic: {}", m)) }
    }
    vec![
        sweep("frame-types", 256, |k, _, o| c(o, k, catch(|| misc::frame_types(k as u8)))),
        sweep("error-codes", 256, |k, _, o| c(o, k | 1 << 32, catch(|| misc::error_codes(k as u8)))),
        sweep("flags", 256, |k, _, o| c(o, k | 2 << 32, catch(|| misc::flag_bits(k as u8)))),
        sweep("settings", 65536 * 4, |k, r, o| { let v = match k >> 16 { 0 => 0, 1 => 0xFFFF_FFFF, 2 => 1 << r.below(32), _ => r.u32() }; o.sample(|| format!("setting {} = {}", k as u16, v)); c(o, k | 3 << 32, catch(|| misc::settings(k as u16, v))) }),
        wk("frame-formats", 400_000, |k, r, o| {
            let edge = |r: &mut Rng, max: u32| match r.below(5) { 0 => 0, 1 => max, 2 => max.min(1 << r.below(32)), 3 => max.min((1u32 << r.below(32)).wrapping_sub(1)), _ => r.u32() & max };
            let (len, sid) = (edge(r, 0xFF_FFFF), edge(r, 0x7FFF_FFFF));
            let (ty, fl) = (if r.bool() { r.below(12) as u8 } else { r.u8() }, r.u8());
            o.sample(|| format!("frame format {} {} {} {}", len, ty, fl, sid));
            c(o, k | 4 << 32, catch(|| misc::frame_format(len, ty, fl, sid)))
        }),
    ]
}

/// what the parser reports, mapped to the elements, is what was written
fn w_codes_parsed(n: u64) -> Wk {
    wk("parsed-frames-to-elements", n, |_, r, obs| {
        let mut v = vec![];
        h2::frame(r, false, &mut v);
        let c = Case::new(Mode::H2, v);
        let o = run(&c);
        note(&c, &o, obs);
        let e = match o.log.evs.first() { Some(e) if e.k == K::Frame => e.clone(), _ => return Ok(()) };
        let [l, t, f, s] = e.a;
        match catch(|| misc::frame_format(l as u32, t as u8, f as u8, s as u32)) { Ok(x) => x, Err(m) => Err(format!("panic: {}", m)) }
    })
}

// ------------------------------------------------------------------------------------------------

/// The workloads of a property. `x` scales the random ones.
pub fn workloads(prop: &str, tier: Tier) -> Vec<Wk> {
    let th = tier == Tier::Thorough;
    let x: u64 = if th { 40 } else if prop.len() == 3 { 4 } else { 1 };
    let less = if th { 0 } else { 1 };
    let lim = if th { 200 } else { 64 };
    let top: u64 = if th { 18 } else { 17 };
    let mega: u64 = if th { 40 } else { 4 };
    let slices: u64 = if th { 1500 } else { 300 };
    let t = |m: &[Mode]| Arc::new(all_templates(m));
    match prop {
        "C01" => {
            let a = t(ALLM);
            let mut v = vec![w_splits(&a, j_crash), w_intr(&a, j_crash), w_bytes(&a, j_crash, How::Cut), w_edit(&a, j_crash, How::CutIntr), w_enum(H1M, j_crash, How::Whole, less), w_enum(H1M, j_crash, How::Intr, less),
                w_frames(j_crash, How::CutIntr), w_any("any-input", ALLM, 300_000 * x, How::CutIntr, j_crash), w_any("any-input-whole", ALLM, 100_000 * x, How::Whole, j_crash), w_slice_sizes(&a, slices, How::CutIntr, j_crash), w_everyday(&a, How::CutIntr, j_crash)];
            for k in [UK::Decode, UK::Query, UK::Field { delim: b';', norm: true }] { v.extend(u_wks(k, "", u_crash, 60_000 * x, less + 1)); }
            v.push(wk("extreme-parameters", 20_000 * x, |_, r, obs| {
                let m = *r.pick(&[Mode::Multipart, Mode::Url]);
                let mut c = g::any(r, m, false);
                let e = *r.pick(&[0usize, 1, usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 31, u32::MAX as usize, (1u64 << 32) as usize, (1u64 << 63) as usize]);
                c.length = e;
                c.cls = vec![Some(e), None];
                if r.chance(1, 8) { c.boundary = vec![b'a'; *r.pick(&[0usize, 1, 16382, 16383])]; let mut v = b"--".to_vec(); v.extend(&c.boundary); v.extend(b"\r\n\r\nx\r\n--"); v.extend(&c.boundary); v.extend(b"--"); c.input = v; }
                c.frags = g::frags(r, c.input.len());
                dress(&mut c, r, How::Intr);
                j_crash(&c, obs)
            }));
            v.push(w_reinit_crash(20_000 * x));
            v.push(w_long(ALLM, 2000 * x, How::CutIntr, j_crash));
            v.push(w_sizes(ALLM, top, How::CutIntr, j_crash));
            v.push(w_mega(ALLM, mega, How::CutIntr, j_crash));
            v.push(w_many(ALLM, How::CutIntr, j_crash));
            v
        }
        "C02" => vec![w_guard_sweep(), w_guard(250_000 * x)],
        // what runs under the address sanitizer
        "C02asan" => {
            let a = t(ALLM);
            let mut v = vec![w_splits(&a, j_crash_ok), w_intr(&a, j_crash_ok), w_edit(&a, j_crash_ok, How::CutIntr), w_frames(j_crash_ok, How::CutIntr), w_any("any-input", ALLM, 120_000 * x, How::CutIntr, j_crash_ok)];
            for k in [UK::Decode, UK::Query, UK::Field { delim: b';', norm: true }] { v.extend(u_wks(k, "", u_any, 30_000 * x, less + 2)); }
            v
        }
        // what runs under the interpreter
        "C02miri" => {
            let a = t(ALLM);
            let m = if th { 1600 } else { 60 };
            vec![
                wk("templates", if th { 2 * a.len() as u64 } else { a.len() as u64 }, { let a = a.clone(); move |k, r, obs| { let mut c = a[k as usize % a.len()].clone(); if k as usize >= a.len() { c.frags = vec![1; c.input.len()]; c.intr = Intr::All; } else { c.frags = g::frags(r, c.input.len()); } j_crash_ok(&c, obs) } }),
                w_any("any-input", ALLM, m, How::CutIntr, j_crash_ok),
                wk("utilities", m, |_, r, obs| { let k = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; let s = ut::any(r, k); u_any(k, &s, obs) }),
                w_threads_small(if th { 12 } else { 2 }),
            ]
        }
        "C03" => { let a = t(HEADM); vec![w_splits(&a, j_split), w_empties(&a, j_split), w_splits3(&a, j_split, lim), w_bytes(&a, j_split, How::Cut), w_names(j_split), w_versions(j_split), w_edit(&a, j_split, How::Cut), w_enum(HEADM, j_split, How::Cut, less), w_any("any-input", HEADM, 150_000 * x, How::Cut, j_split), w_long(HEADM, 1500 * x, How::Cut, j_split), w_sizes(HEADM, top, How::Cut, j_split), w_mega(HEADM, mega, How::Cut, j_split), w_many(HEADM, How::Cut, j_split), w_slice_sizes(&a, slices, How::Cut, j_split), w_everyday(&a, How::Cut, j_split)] }
        "C04" => { let a = t(HEADM); vec![w_splits(&a, j_content), w_names(j_content), w_versions(j_content), w_bytes(&a, j_content, How::Cut), w_edit(&a, j_content, How::Whole), w_enum(HEADM, j_content, How::Cut, less), w_valid("valid-messages", HEADM, 250_000 * x, How::Cut, j_content), w_valid("valid-messages-interrupted", HEADM, 50_000 * x, How::CutIntr, j_content), w_long(HEADM, 2000 * x, How::CutIntr, j_content), w_sizes(HEADM, top, How::CutIntr, j_content), w_mega(HEADM, mega, How::CutIntr, j_content), w_many(HEADM, How::CutIntr, j_content), w_slice_sizes(&a, slices, How::CutIntr, j_content), w_everyday(&a, How::CutIntr, j_content)] }
        "C05" => { let a = t(CH); vec![w_splits(&a, j_model), w_bytes(&a, j_model, How::Cut), w_edit(&a, j_model, How::Cut), w_enum(CH, j_model, How::Cut, less), w_valid("valid-bodies", CH, 200_000 * x, How::Cut, j_model), w_any("any-input", CH, 100_000 * x, How::CutIntr, j_model), w_chunk_lengths(150_000 * x), w_huge(Mode::Chunked, 8 * x.min(4)), w_long(CH, 2000 * x, How::CutIntr, j_model), w_sizes(CH, top, How::CutIntr, j_model), w_mega(CH, mega, How::CutIntr, j_model), w_many(CH, How::CutIntr, j_model), w_slice_sizes(&a, slices, How::CutIntr, j_model), w_everyday(&a, How::CutIntr, j_model)] }
        "C06" => { let a = t(MP); vec![w_splits(&a, j_model), w_splits3(&a, j_model, lim), w_bytes(&a, j_model, How::Cut), w_edit(&a, j_model, How::Cut), w_enum(MP, j_model, How::Whole, less), w_enum(MP, j_model, How::Cut, less), w_valid("valid-bodies", MP, 200_000 * x, How::Cut, j_model), w_any("any-input", MP, 100_000 * x, How::CutIntr, j_model), w_huge(Mode::Multipart, 8 * x.min(4)), w_long(MP, 2000 * x, How::CutIntr, j_model), w_sizes(MP, top, How::CutIntr, j_model), w_mega(MP, mega, How::CutIntr, j_model), w_many(MP, How::CutIntr, j_model), w_slice_sizes(&a, slices, How::CutIntr, j_model), w_everyday(&a, How::CutIntr, j_model)] }
        "C07" => { let a = t(UR); vec![w_splits(&a, j_model), w_splits3(&a, j_model, lim), w_bytes(&a, j_model, How::Cut), w_edit(&a, j_model, How::Cut), w_enum(UR, j_model, How::Whole, less), w_enum(UR, j_model, How::Cut, less), w_url_lengths(), w_valid("valid-bodies", UR, 300_000 * x, How::Cut, j_model), w_any("any-input", UR, 150_000 * x, How::CutIntr, j_model), w_huge(Mode::Url, 4 * x.min(4)), w_long(UR, 2000 * x, How::CutIntr, j_model), w_sizes(UR, top, How::CutIntr, j_model), w_mega(UR, mega, How::CutIntr, j_model), w_many(UR, How::CutIntr, j_model), w_slice_sizes(&a, slices, How::CutIntr, j_model), w_everyday(&a, How::CutIntr, j_model)] }
        "C08" => { let a = t(BODYM); vec![w_splits(&a, j_split), w_empties(&a, j_split), w_splits3(&a, j_split, lim), w_bytes(&a, j_split, How::Cut), w_edit(&a, j_split, How::Cut), w_enum(BODYM, j_split, How::Cut, less), w_any("any-input", BODYM, 150_000 * x, How::Cut, j_split), w_long(BODYM, 1500 * x, How::Cut, j_split), w_sizes(BODYM, top, How::Cut, j_split), w_mega(BODYM, mega, How::Cut, j_split), w_many(BODYM, How::Cut, j_split), w_slice_sizes(&a, slices, How::Cut, j_split), w_everyday(&a, How::Cut, j_split)] }
        "C09" => { let a = t(H1M); vec![w_intr(&a, j_interrupt), w_empties(&a, j_interrupt), w_split_intr(&a, j_interrupt, lim), w_bytes(&a, j_interrupt, How::Intr), w_edit(&a, j_interrupt, How::CutIntr), w_enum(H1M, j_interrupt, How::Intr, less), w_any("any-input", H1M, 150_000 * x, How::CutIntr, j_interrupt), w_long(H1M, 1500 * x, How::CutIntr, j_interrupt), w_sizes(H1M, top, How::CutIntr, j_interrupt), w_mega(H1M, mega, How::CutIntr, j_interrupt), w_many(H1M, How::CutIntr, j_interrupt), w_slice_sizes(&a, slices, How::CutIntr, j_interrupt), w_everyday(&a, How::CutIntr, j_interrupt)] }
        "C10" => { let a = t(H1M); vec![w_splits(&a, j_count), w_empties(&a, j_count), w_intr(&a, j_count), w_split_intr(&a, j_count, lim / 2), w_edit(&a, j_count, How::CutIntr), w_enum(H1M, j_count, How::Intr, less), w_url_lengths(), w_any("any-input", H1M, 150_000 * x, How::CutIntr, j_count), w_pipeline(40_000 * x), w_huge(Mode::Chunked, 4), w_huge(Mode::Multipart, 4), w_huge(Mode::Url, 4), w_long(H1M, 1500 * x, How::CutIntr, j_count), w_sizes(H1M, top, How::CutIntr, j_count), w_mega(H1M, mega, How::CutIntr, j_count), w_many(H1M, How::CutIntr, j_count), w_slice_sizes(&a, slices, How::CutIntr, j_count), w_everyday(&a, How::CutIntr, j_count)] }
        "C11" => { let a = t(H1M); vec![w_bytes(&a, j_error, How::Whole), w_bytes(&a, j_error, How::Cut), w_edit(&a, j_error, How::Cut), w_enum(H1M, j_error, How::Whole, less), w_enum(H1M, j_error, How::Cut, less), w_any("any-input", H1M, 200_000 * x, How::CutIntr, j_error), w_long(H1M, 1500 * x, How::CutIntr, j_error), w_sizes(H1M, top, How::CutIntr, j_error), w_mega(H1M, mega, How::CutIntr, j_error), w_many(H1M, How::CutIntr, j_error), w_slice_sizes(&a, slices, How::CutIntr, j_error), w_everyday(&a, How::CutIntr, j_error)] }
        "C12" => { let a = t(ALLM); vec![w_splits(&a, j_terminal), w_calls_after(ALLM), w_intr(&a, j_terminal), w_split_intr(&a, j_terminal, lim / 2), w_bytes(&a, j_terminal, How::Cut), w_edit(&a, j_terminal, How::CutIntr), w_frames(j_terminal, How::CutIntr), w_enum(H1M, j_terminal, How::Intr, less + 1), w_any("any-input", ALLM, 150_000 * x, How::CutIntr, j_terminal), w_long(ALLM, 1000 * x, How::CutIntr, j_terminal), w_sizes(ALLM, top, How::CutIntr, j_terminal), w_mega(ALLM, mega, How::CutIntr, j_terminal), w_many(ALLM, How::CutIntr, j_terminal), w_slice_sizes(&a, slices, How::CutIntr, j_terminal), w_everyday(&a, How::CutIntr, j_terminal)] }
        "C13" => vec![w_reinit_sweep(), w_reinit(150_000 * x), w_reinit2(60_000 * x), w_reinit_panics(100_000 * x), w_reinit_memory(60_000 * x), w_reuse(400 * x), w_reuse2(400 * x)],
        "C14" => { let a = t(H2M); vec![w_splits(&a, j_frames), w_bytes(&a, j_frames, How::Cut), w_frames(j_frames, How::Whole), w_frames(j_frames, How::CutIntr), w_types(j_frames, How::Cut), w_pairs(200_000 * x, j_frames, How::Cut), w_valid("valid-streams", H2M, 150_000 * x, How::Cut, j_frames), w_huge(Mode::H2, 4 * x.min(4)), w_long(H2M, 1500 * x, How::CutIntr, j_frames), w_sizes(H2M, top, How::CutIntr, j_frames), w_mega(H2M, mega, How::CutIntr, j_frames), w_many(H2M, How::CutIntr, j_frames), w_slice_sizes(&a, slices, How::CutIntr, j_frames), w_everyday(&a, How::CutIntr, j_frames)] }
        "C15" => { let a = t(H2M); vec![w_splits(&a, j_split), w_empties(&a, j_split), w_splits3(&a, j_split, lim), w_bytes(&a, j_split, How::Cut), w_frames(j_split, How::Cut), w_types(j_split, How::Cut), w_pairs(100_000 * x, j_split, How::Cut), w_any("any-input", H2M, 200_000 * x, How::Cut, j_split), w_long(H2M, 1500 * x, How::Cut, j_split), w_sizes(H2M, top, How::Cut, j_split), w_mega(H2M, mega, How::Cut, j_split), w_many(H2M, How::Cut, j_split), w_slice_sizes(&a, slices, How::Cut, j_split), w_everyday(&a, How::Cut, j_split)] }
        "C16" => { let a = t(H2M); vec![w_splits(&a, j_badframes), w_bytes(&a, j_badframes, How::Cut), w_frames(j_badframes, How::Whole), w_frames(j_badframes, How::CutIntr), w_types(j_badframes, How::Cut), w_pairs(200_000 * x, j_badframes, How::Cut), w_any("any-input", H2M, 150_000 * x, How::CutIntr, j_badframes), w_malformed(150_000 * x), w_slice_sizes(&a, slices, How::CutIntr, j_badframes), w_everyday(&a, How::CutIntr, j_badframes)] }
        "C17" => { let a = t(H2M); vec![w_intr(&a, j_interrupt), w_empties(&a, j_interrupt), w_split_intr(&a, j_interrupt, lim), w_bytes(&a, j_interrupt, How::Intr), w_frames(j_interrupt, How::CutIntr), w_types(j_interrupt, How::CutIntr), w_pairs(100_000 * x, j_interrupt, How::CutIntr), w_any("any-input", H2M, 200_000 * x, How::CutIntr, j_interrupt), w_huge(Mode::H2, 4), w_long(H2M, 1500 * x, How::CutIntr, j_interrupt), w_sizes(H2M, top, How::CutIntr, j_interrupt), w_mega(H2M, mega, How::CutIntr, j_interrupt), w_many(H2M, How::CutIntr, j_interrupt), w_slice_sizes(&a, slices, How::CutIntr, j_interrupt), w_everyday(&a, How::CutIntr, j_interrupt)] }
        "C18" => { let k = UK::Decode; let mut v = u_wks(k, "", u_model, 300_000 * x, less); v.push(w_roundtrip(k, 200_000 * x)); v }
        "C19" => { let k = UK::Query; let mut v = u_wks(k, "", u_model, 300_000 * x, less); v.push(w_roundtrip(k, 200_000 * x)); v }
        "C20" => { let k = UK::Field { delim: b';', norm: true }; let mut v = u_wks(k, "", u_model, 300_000 * x, less); v.push(w_roundtrip(k, 200_000 * x)); v }
        "C21" => { let mut v = vec![]; for k in [UK::Decode, UK::Query, UK::Field { delim: b';', norm: true }] { v.extend(u_wks(k, "", u_utf8, 150_000 * x, less)); } v.extend(w_utf8_all(x)); v }
        "C22" => { let a = t(H1M); vec![w_splits(&a, j_protocol), w_empties(&a, j_protocol), w_intr(&a, j_protocol), w_split_intr(&a, j_protocol, lim / 2), w_bytes(&a, j_protocol, How::Cut), w_edit(&a, j_protocol, How::CutIntr), w_enum(H1M, j_protocol, How::Intr, less), w_valid("valid-messages", H1M, 100_000 * x, How::CutIntr, j_protocol), w_any("any-input", H1M, 150_000 * x, How::CutIntr, j_protocol), w_long(H1M, 1500 * x, How::CutIntr, j_protocol), w_sizes(H1M, top, How::CutIntr, j_protocol), w_mega(H1M, mega, How::CutIntr, j_protocol), w_many(H1M, How::CutIntr, j_protocol), w_slice_sizes(&a, slices, How::CutIntr, j_protocol), w_everyday(&a, How::CutIntr, j_protocol)] }
        "C23" => { let a = t(ALLM); vec![w_splits(&a, j_timely), w_empties(&a, j_timely), w_splits3(&a, j_timely, lim / 2), w_bytes(&a, j_timely, How::Cut), w_frames(j_timely, How::Cut), w_enum(H1M, j_timely, How::Cut, less), w_valid("valid-messages", ALLM, 100_000 * x, How::Cut, j_timely), w_memory(if th { 16 << 20 } else { 1 << 20 }), w_pumped("memory-of-repeated-parts", 3000 * x, 20_000, true), w_different(300 * x, if th { 2 << 20 } else { 1 << 18 }), w_reused_memory(300 * x), w_left(1000 * x), w_long(ALLM, 1500 * x, How::Cut, j_timely), w_sizes(ALLM, top, How::Cut, j_timely), w_mega(ALLM, mega, How::Cut, j_timely), w_many(ALLM, How::Cut, j_timely), w_slice_sizes(&a, slices, How::Cut, j_timely), w_everyday(&a, How::Cut, j_timely)] }
        "C24" => { let mut v = w_codes(); v.push(w_codes_parsed(50_000 * x)); v }
        "C25" => { let mut v = vec![w_classes(), w_class_positions(), w_class_fields()]; if th { let a = t(H1M); v.push(w_bytes(&a, j_class, How::Cut)); } v }
        "C26" => vec![w_interleave(40_000 * x), w_nested(40_000 * x), w_handed(if th { 40_000 } else { 3000 }), w_threads(if th { 20_000 } else { 500 })],
        "C27" => vec![w_callbacks(if th { 1 << 20 } else { 1 << 16 }), w_pumped("callbacks-of-repeated-parts", 20_000 * x, 3000, false)],
        "C28" => { let a = t(ALLM); vec![w_initial_states(), w_splits(&a, j_state), w_empties(&a, j_state), w_intr(&a, j_state), w_split_intr(&a, j_state, lim / 2), w_bytes(&a, j_state, How::Cut), w_edit(&a, j_state, How::CutIntr), w_frames(j_state, How::CutIntr), w_enum(H1M, j_state, How::Cut, less), w_any("any-input", ALLM, 150_000 * x, How::CutIntr, j_state), w_long(ALLM, 1000 * x, How::CutIntr, j_state), w_sizes(ALLM, top, How::CutIntr, j_state), w_mega(ALLM, mega, How::CutIntr, j_state), w_many(ALLM, How::CutIntr, j_state), w_slice_sizes(&a, slices, How::CutIntr, j_state), w_everyday(&a, How::CutIntr, j_state)] }
        "C29" => vec![sweep("printed-forms", 256 * 512, |k, _, obs| { obs.nontrivial(k); match catch(|| crate::part::printed(k)) { Ok(Ok(n)) => { obs.runs += n; obs.count("texts", n); Ok(()) } Ok(Err(m)) => Err(m), Err(m) => Err(format!("panic: {}", m)) } }), w_printed_results(100_000 * x)],
        "C33" => { let a = t(ALLM); vec![w_splits(&a, j_lent), w_empties(&a, j_lent), w_splits3(&a, j_lent, lim / 2), w_intr(&a, j_lent), w_split_intr(&a, j_lent, lim / 2), w_bytes(&a, j_lent, How::Cut), w_edit(&a, j_lent, How::CutIntr), w_frames(j_lent, How::CutIntr), w_enum(H1M, j_lent, How::Cut, less), w_valid("valid-messages", ALLM, 100_000 * x, How::CutIntr, j_lent), w_any("any-input", ALLM, 150_000 * x, How::CutIntr, j_lent), w_long(ALLM, 1000 * x, How::CutIntr, j_lent), w_sizes(ALLM, top, How::CutIntr, j_lent), w_mega(ALLM, mega, How::CutIntr, j_lent), w_many(ALLM, How::CutIntr, j_lent), w_slice_sizes(&a, slices, How::CutIntr, j_lent), w_everyday(&a, How::CutIntr, j_lent)] }
        "C34" => vec![sweep("all-pairs-of-values", 256 * 3 + 2000 * x, |k, _, obs| { obs.nontrivial(k); match catch(|| crate::part::compared(k)) { Ok(Ok(n)) => { obs.runs += n; obs.count("comparisons", n); Ok(()) } Ok(Err(m)) => Err(m), Err(m) => Err(format!("panic: {}", m)) } }), w_compared_runs(60_000 * x)],
        "C30" => { let a = t(ALLM); vec![w_splits(&a, j_optional), w_intr(&a, j_optional), w_split_intr(&a, j_optional, lim / 2), w_bytes(&a, j_optional, How::Cut), w_frames(j_optional, How::CutIntr), w_any("any-input", ALLM, 150_000 * x, How::CutIntr, j_optional), w_long(ALLM, 1000 * x, How::CutIntr, j_optional), w_sizes(ALLM, top, How::CutIntr, j_optional), w_mega(ALLM, mega, How::CutIntr, j_optional), w_many(ALLM, How::CutIntr, j_optional), w_slice_sizes(&a, slices, How::CutIntr, j_optional), w_everyday(&a, How::CutIntr, j_optional)] }
        "C31" => { use crate::equiv::*; vec![w_places(60_000 * x), w_case(150_000 * x), w_rechunk(100_000 * x), w_reboundary(100_000 * x), w_padding(100_000 * x), w_text(200_000 * x), w_delims(100_000 * x), w_space(150_000 * x)] }
        "C32" => vec![crate::equiv::w_elements(200_000 * x)],
        // all of it small, for machines of other kinds in the interpreter
        "C35" => {
            let a = t(ALLM);
            let m = if th { 20 } else { 1 };
            vec![
                wk("templates", a.len() as u64 * m, { let a = a.clone(); move |k, r, obs| { let mut c = a[k as usize % a.len()].clone(); c.frags = if r.bool() { vec![c.input.len()] } else { g::frags(r, c.input.len()) }; j_any(&c, obs) } }),
                wk("any-input", 120 * m, |k, r, obs| { let m = ALLM[k as usize % ALLM.len()]; let mut c = if m == Mode::H2 { h2::any2(r, false) } else { g::any(r, m, false) }; if c.input.len() > 200 { return Ok(()); } dress(&mut c, r, How::CutIntr); j_any(&c, obs) }),
                wk("frames", 160 * m, |k, r, obs| {
                    // every kind of frame, whole and cut within its numbers
                    let mut v = vec![];
                    let n = r.below(12);
                    let mut p: Vec<u8> = (0..n + 13).map(|_| r.u8()).collect();
                    let ty = (k % 11) as u8;
                    let fl = *r.pick(&[0u8, 0, 0x20, 0x24, 1, 4]);
                    match ty { 2 => p.truncate(5), 3 | 8 => p.truncate(4), 4 => p.truncate(12), 6 => p.truncate(8), _ => () }
                    h2::put(&mut v, ty, fl, r.u32(), &p);
                    h2::frame(r, false, &mut v);
                    let mut c = Case::new(Mode::H2, v);
                    c.frags = match k % 3 { 0 => vec![c.input.len()], 1 => vec![1; c.input.len()], _ => g::frags(r, c.input.len()) };
                    j_any(&c, obs)
                }),
                w_chunk_lengths(80 * m),
                wk("lengths", 20 * m, |_, r, obs| { let mut c = g::any(r, Mode::Url, false); c.length = g::far(r, c.input.len()); c.frags = g::frags(r, c.input.len()); j_any(&c, obs) }),
                w_codes_parsed(30 * m),
                wk("utilities", 80 * m, |_, r, obs| { let k = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; let s = ut::any(r, k); u_model(k, &s, obs) }),
            ]
        }
        // what runs under the thread sanitizer and the interpreter
        "C26tsan" => vec![w_threads(if th { 2000 } else { 60 }), w_interleave(2000 * x), w_nested(500 * x), w_handed(if th { 3000 } else { 150 })],
        "C26miri" => vec![w_threads_small(if th { 160 } else { 24 })],
        _ => vec![],
    }
}

/// what the coverage-guided exploration judges
#[cfg(feature = "guided")]
pub fn targets(prop: &str) -> Vec<crate::guided::Target> {
    use crate::guided::Target;
    let m = |modes: &'static [Mode], how: How, j: Judge| Target::M(modes, how, j);
    let u = |k: UK, j: UJudge| Target::U(kinds(k), j);
    let f = UK::Field { delim: b';', norm: true };
    match prop {
        "C01" => vec![m(H1M, How::CutIntr, j_crash), m(H1M, How::CutIntr, j_crash), m(H2M, How::CutIntr, j_crash), u(UK::Decode, u_crash), u(UK::Query, u_crash), u(f, u_crash)],
        "C03" => vec![m(HEADM, How::Cut, j_split)],
        "C04" => vec![m(HEADM, How::CutIntr, j_content)],
        "C05" => vec![m(CH, How::CutIntr, j_model)],
        "C06" => vec![m(MP, How::CutIntr, j_model)],
        "C07" => vec![m(UR, How::CutIntr, j_model)],
        "C08" => vec![m(CH, How::Cut, j_split), m(MP, How::Cut, j_split), m(UR, How::Cut, j_split)],
        "C09" => vec![m(HEADM, How::CutIntr, j_interrupt), m(CH, How::CutIntr, j_interrupt), m(MP, How::CutIntr, j_interrupt), m(UR, How::CutIntr, j_interrupt)],
        "C10" => vec![m(HEADM, How::CutIntr, j_count), m(CH, How::CutIntr, j_count), m(MP, How::CutIntr, j_count), m(UR, How::CutIntr, j_count)],
        "C11" => vec![m(HEADM, How::CutIntr, j_error), m(CH, How::CutIntr, j_error), m(MP, How::CutIntr, j_error), m(UR, How::CutIntr, j_error)],
        "C12" => vec![m(HEADM, How::CutIntr, j_terminal), m(BODYM, How::CutIntr, j_terminal), m(H2M, How::CutIntr, j_terminal)],
        "C13" => vec![Target::P(&[Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url]), Target::P(&[Mode::Head]), Target::P(CH), Target::P(MP), Target::P(UR), Target::P(H2M)],
        "C14" => vec![m(H2M, How::CutIntr, j_frames)],
        "C15" => vec![m(H2M, How::Cut, j_split)],
        "C16" => vec![m(H2M, How::CutIntr, j_badframes)],
        "C17" => vec![m(H2M, How::CutIntr, j_interrupt)],
        "C18" => vec![u(UK::Decode, u_model)],
        "C19" => vec![u(UK::Query, u_model)],
        "C20" => vec![u(f, u_model)],
        "C21" => vec![u(UK::Decode, u_utf8), u(UK::Query, u_utf8), u(f, u_utf8)],
        "C22" => vec![m(HEADM, How::CutIntr, j_protocol), m(BODYM, How::CutIntr, j_protocol)],
        "C23" => vec![m(HEADM, How::Cut, j_timely), m(BODYM, How::Cut, j_timely), m(H2M, How::Cut, j_timely)],
        "C28" => vec![m(HEADM, How::CutIntr, j_state), m(BODYM, How::CutIntr, j_state), m(H2M, How::CutIntr, j_state)],
        "C30" => vec![m(HEADM, How::CutIntr, j_optional), m(BODYM, How::CutIntr, j_optional), m(H2M, How::CutIntr, j_optional)],
        "C33" => vec![m(HEADM, How::CutIntr, j_lent), m(BODYM, How::CutIntr, j_lent), m(H2M, How::CutIntr, j_lent)],
        _ => vec![],
    }
}

/// as in j_error, but only acceptance
fn j_class(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = Model::run(c);
    let o = run(c);
    note(c, &o, obs);
    if matches!(m.fin, Fin::Err(..)) != matches!(o.fin, Fin::Err(..)) { return fail(c, &o, format!("expected {:?} after {}", m.fin, m.off)); }
    Ok(())
}

fn j_crash_ok(c: &Case, obs: &mut Obs) -> Result<(), String> { let o = run_x(c, &EXTRA[..3], false); note(c, &o, obs); Ok(()) }
fn u_any(k: UK, s: &[u8], obs: &mut Obs) -> Result<(), String> { let r = ut::sut(k, s); unote(k, s, &r, obs); Ok(()) }

fn w_reinit_crash(n: u64) -> Wk {
    wk("reset-anywhere", n, |_, r, obs| {
        let cs: Vec<Case> = (0..3).map(|_| { let m = *r.pick(&MODES); let mut c = g::any(r, m, false); c.frags = g::frags(r, c.input.len()); if r.bool() { c.intr = g::intr(r); } c }).collect();
        let cut: Vec<usize> = cs.iter().map(|_| r.below(10)).collect();
        let rs = r.u64();
        let e = catch(|| {
            let mut p = http_box::http1::Parser::new();
            for (i, c) in cs.iter().enumerate() {
                if rs >> i & 1 == 0 && i > 0 && cs[i - 1].mode == c.mode { p.reset(); params(&mut p, c); } else { init(&mut p, c); }
                if c.mode == Mode::New { if i > 0 { p.init_head(); } }
                let b = p.byte_count();
                let mut d = Drv::new(c, b);
                let mut k = 0;
                while !d.done && k < cut[i] { d.step(&mut p); k += 1; }
            }
        });
        obs.runs += 1;
        obs.nontrivial(cs[0].hash() ^ cs[1].hash());
        match e { Err(m) => Err(format!("panic: {} | {:?} stopped after {:?} calls", m, cs, cut)), Ok(()) => Ok(()) }
    })
}

fn w_threads_small(n: u64) -> Wk {
    wk("threads", n, |_, r, obs| {
        let cs: Vec<Case> = (0..3).map(|_| any_case(r)).collect();
        let us: Vec<(UK, Vec<u8>)> = (0..3).map(|_| { let k = match r.below(3) { 0 => UK::Query, 1 => field_k(r), _ => UK::Decode }; (k, ut::any(r, k)) }).collect();
        std::thread::scope(|s| { for _ in 0..3 { let (cs, us) = (&cs, &us); s.spawn(move || { for c in cs { run(c); } for (k, u) in us { ut::sut(*k, u); } }); } });
        obs.runs += 9;
        obs.nontrivial(cs[0].hash());
        Ok(())
    })
}

/// every declared length for every template, with more bytes offered than declared
fn w_url_lengths() -> Wk {
    let t: Vec<Case> = all_templates(UR);
    let ix = Idx::new(t.iter().map(|c| (c.input.len() as u64 + 3) * (c.input.len() as u64 + 2)));
    sweep("every-length-and-split", ix.total(), move |k, _, obs| {
        let (i, s) = ix.get(k);
        let n = t[i].input.len() + 2;
        let mut c = t[i].clone();
        c.input.push(b'%');
        c.length = s as usize / n;
        if s % 7 == 3 { c.length += 1 << [16, 31, 32, 33, 48][s as usize % 5]; }
        let c = split2(&c, s as usize % n);
        j_model(&c, obs)?;
        j_count(&c, obs)
    })
}

fn w_malformed(n: u64) -> Wk {
    wk("malformed-frames", n, |_, r, obs| {
        let mut c = Case::new(Mode::H2, h2::malformed(r));
        dress(&mut c, r, How::CutIntr);
        j_badframes(&c, obs)
    })
}

/// sequences around every boundary of UTF-8, raw and escaped (C21)
fn w_utf8_all(x: u64) -> Vec<Wk> {
    fn put(k: UK, b: &[u8], r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
        let e: String = b.iter().map(|x| format!("%{:02X}", x)).collect();
        let mut esc = vec![b'a'];
        match k {
            UK::Decode => esc.extend(e.bytes()),
            UK::Query => { if r.bool() { esc.extend(b"b="); } esc.extend(e.bytes()); if r.bool() { esc.extend(b"&z=1"); } }
            UK::Field { .. } => { esc.push(b'='); if r.bool() { esc.push(b'"'); for x in b { if r.chance(1, 4) { esc.push(b'\\'); } esc.push(*x); } esc.push(b'"'); } else { esc.extend(b); } if r.bool() { esc.extend(b";z"); } }
        }
        if r.chance(1, 4) { esc.push(b'c'); }
        u_utf8(k, &esc, obs)
    }
    let ks = [UK::Decode, UK::Query, UK::Field { delim: b';', norm: true }];
    vec![
        sweep("all-two-byte-sequences", 65536 * 3, move |k, r, obs| put(ks[(k % 3) as usize], &[(k / 3 >> 8) as u8, (k / 3) as u8], r, obs)),
        wk("longer-sequences", 200_000 * x, move |k, r, obs| {
            let mut b = vec![];
            for _ in 0..r.range(1, 3) {
                match r.below(4) {
                    0 => b.extend(ut::bad_utf8(r)),
                    1 => { let mut s = r.pick(ut::CHARS).as_bytes().to_vec(); if r.bool() && s.len() > 1 { s.pop(); } b.extend(s); }
                    2 => { b.push(0xE0 + r.below(32) as u8); for _ in 0..r.below(4) { b.push(*r.pick(&[0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0])); } }
                    _ => { let c = char::from_u32(r.u32() % 0x110000).unwrap_or('x'); let mut t = [0; 4]; b.extend(c.encode_utf8(&mut t).as_bytes()); }
                }
            }
            let k = ks[(k % 3) as usize];
            if let UK::Field { .. } = k { b.retain(|x| *x > 0x20 && !b"\";\\".contains(x)); }
            put(k, &b, r, obs)
        }),
    ]
}
