mod checks;
mod engine;
mod ev;
#[cfg(feature = "guided")]
mod guided;
mod h1;
mod h1gen;
mod h2;
mod equiv;
mod misc;
mod part;
mod rng;
mod ut;
mod vocab;

use engine::*;
use std::time::Duration;

#[global_allocator]
static ALLOC: misc::Acc = misc::Acc;

fn main() {
    hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let prop = a.get(2).cloned().unwrap_or_default();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let ws = checks::workloads(&prop, tier);
            if ws.is_empty() { eprintln!("no such property"); std::process::exit(2); }
            let cap = opt("--cap").and_then(|s| s.parse().ok()).unwrap_or(60.0);
            let threads = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16));
            let hang = opt("--hang").and_then(|s| s.parse().ok()).unwrap_or(45.0);
            let rep = run_all(&ws, &Run { prop: &prop, seed, threads, progress: opt("--progress"), cap: Duration::from_secs_f64(cap), hang: Duration::from_secs_f64(hang) });
            let j = report(&rep);
            match opt("--part") { Some(p) => std::fs::write(p, j).unwrap(), None => println!("{}", j) }
        }
        // one case, by numbers as found in the progress slots or by name
        Some("only") => {
            let ws = checks::workloads(&prop, tier);
            let w = &a[3];
            let i = w.parse::<usize>().ok().unwrap_or_else(|| ws.iter().position(|x| x.name == w).expect("no such workload"));
            let k: u64 = a[4].parse().unwrap();
            let mut obs = fresh_obs();
            obs.want_sample = true;
            match one(&ws[i], seed, &prop, k, &mut obs) {
                Err(m) => { println!("VIOLATED {} case {}: {}", ws[i].name, k, m); std::process::exit(1) }
                Ok(()) => println!("held {} case {}: {:?}", ws[i].name, k, obs.samples),
            }
        }
        // single threaded, for the interpreter: the part goes to stdout
        Some("seq") => {
            let ws = checks::workloads(&prop, tier);
            let (lo, of): (u64, u64) = (opt("--shard").and_then(|s| s.parse().ok()).unwrap_or(0), opt("--of").and_then(|s| s.parse().ok()).unwrap_or(1));
            let mut obs = fresh_obs();
            let only = opt("--workload");
            for w in &ws {
                if only.as_ref().map_or(false, |o| o != w.name) { continue; }
                for k in (0..w.n).filter(|k| k % of == lo) {
                    eprintln!("case {} {}", w.name, k);
                    obs.evals += 1;
                    if let Err(m) = one(w, seed, &prop, k, &mut obs) { println!("VIOLATED {} case {}: {}", w.name, k, m); std::process::exit(1); }
                }
            }
            println!("SEQ evals={} runs={} distinct={}", obs.evals, obs.runs, obs.set.len());
        }
        // one process of the coverage-guided exploration
        #[cfg(feature = "guided")]
        Some("guided") => {
            let num = |n: &str, d: u64| opt(n).and_then(|s| s.parse().ok()).unwrap_or(d);
            let rep = guided::explore(&prop, seed, num("--shard", 0), num("--iters", u64::MAX), Duration::from_secs(num("--cap", 10)), Duration::from_secs(num("--hang", 45)));
            let j = report(&rep);
            match opt("--part") { Some(p) => std::fs::write(p, j).unwrap(), None => println!("{}", j) }
        }
        Some("measure") => measure(&a),
        _ => { eprintln!("usage: vh run|only|seq|measure PROP ..."); std::process::exit(2) }
    }
}

fn report(r: &Report) -> String {
    let mut s = String::from("{");
    s.push_str(&format!("\"evaluations\": {}, \"runs\": {}, \"distinct\": {}, \"capped\": {}, \"wall\": {:.3}", r.obs.evals, r.obs.runs, r.obs.set.len(), r.capped, r.wall));
    s.push_str(", \"counters\": {");
    s.push_str(&r.obs.n.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("}, \"events\": {");
    const NAMES: [&str; ev::NK] = ["Method", "Url", "Version", "StatusCode", "Status", "Initial", "HeaderName", "HeaderValue", "Headers", "ChunkBegin", "ChunkLength", "ExtensionName", "ExtensionValue", "ExtensionFinished", "ExtensionsFinished", "ChunkData",
        "MultipartBegin", "MultipartData", "UrlEncodedBegin", "UrlEncodedName", "UrlEncodedValue", "BodyFinished", "H2Frame", "H2Data", "H2DataEnd", "H2GoAway", "H2Debug", "H2DebugEnd", "H2Headers", "H2Fragment", "H2FragmentEnd", "H2Ping", "H2PingEnd",
        "H2Priority", "H2PushPromise", "H2RstStream", "H2Setting", "H2Unsupported", "H2UnsupportedEnd", "H2WindowUpdate"];
    s.push_str(&(0..ev::NK).filter(|i| r.obs.kinds[*i] > 0).map(|i| format!("{}: {}", js(NAMES[i]), r.obs.kinds[i])).collect::<Vec<_>>().join(", "));
    s.push_str("}, \"workloads\": [");
    s.push_str(&r.per.iter().map(|(n, t, d, e)| format!("{{\"name\": {}, \"cases\": {}, \"done\": {}, \"exhaustive\": {}}}", js(n), t, d, e)).collect::<Vec<_>>().join(", "));
    s.push_str("], \"samples\": [");
    s.push_str(&r.obs.samples.iter().map(|x| js(&x.chars().take(700).collect::<String>())).collect::<Vec<_>>().join(", "));
    s.push_str("], \"violation\": ");
    match &r.violation { None => s.push_str("null"), Some((w, k, m)) => s.push_str(&format!("{{\"workload\": {}, \"case\": {}, \"message\": {}}}", js(w), k, js(m))) }
    s.push('}');
    s
}

// ------------------------------------------------------------------------------------------------
// Instruction counts, under callgrind
// ------------------------------------------------------------------------------------------------

#[cfg(target_arch = "x86_64")]
fn client_request(req: u64, arg: u64) -> u64 {
    let args: [u64; 6] = [req, arg, 0, 0, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), options(nostack));
    }
    r
}

#[cfg(not(target_arch = "x86_64"))]
fn client_request(_: u64, _: u64) -> u64 { 0 }

/// Each shape at n, 2n and 4n: zero the counters, parse, dump them under a label.
fn measure(a: &[String]) {
    let n: usize = a[2].parse().unwrap();
    let (seed, pumps): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let filter = a.get(5).cloned().unwrap_or_default();
    let ct = (b'C' as u64) << 24 | (b'T' as u64) << 16;
    let mut label = 0u64;
    let mut go = |name: &str, step: usize, every: u64, size: usize, f: &mut dyn FnMut() -> (u64, u64)| {
        client_request(ct + 1, 0);
        let (used, cbs) = f();
        let s = format!("m{}\0", label);
        client_request(ct + 3, s.as_ptr() as u64);
        println!("m{}\t{}\t{}\t{}\t{}\t{}\t{}", label, name, step, every, size, used, cbs);
        label += 1;
    };
    // warm up
    for _ in 0..2 {
        for s in misc::shapes() { let i = (s.make)(500); let _ = catch(|| misc::feed(&s, &i, 7, 0, 500)); }
    }
    let mut r = rng::Rng::new(rng::mix(seed));
    let mut all: Vec<(misc::Shape, bool)> = misc::shapes().into_iter().map(|s| (s, true)).collect();
    all.extend((0..pumps).map(|_| (misc::pumped(&mut r), false)));
    for (s, known) in all {
        if !s.name.contains(&filter[..]) { continue; }
        for (i, (step, every)) in [(usize::MAX, 0u64), (1, 0), (16, 0), (usize::MAX, 1)].into_iter().enumerate() {
            if !known && i > 0 && i != 1 + r.below(3) { continue; }
            for m in [n, 2 * n, 4 * n] {
                let input = (s.make)(m);
                let st = step.min(input.len());
                go(&s.name, step, every, m, &mut || match catch(|| misc::feed(&s, &input, st, every, m)) { Ok(f) => (f.used as u64, f.cbs), Err(_) => (0, 0) });
            }
        }
    }
    use http_box::util::*;
    let us: &[(&str, &[u8], &[u8], u8)] = &[
        ("decode-plain", b"", b"abcdefgh", 0), ("decode-escapes", b"", b"%41", 0), ("decode-plus", b"", b"+", 0), ("decode-utf8", b"", b"%C3%A9", 0), ("decode-bad-end", b"", b"a%41", 3),
        ("query-pairs", b"", b"a=b&", 1), ("query-empty", b"a", b"&", 1), ("query-value", b"a=", b"bcd", 1), ("query-name", b"a", b"bcd", 1), ("query-escapes", b"a=", b"%41", 1), ("query-plus", b"a", b"+", 1), ("query-equals", b"a", b"=", 1),
        ("field-pairs", b"", b"a=b;", 2), ("field-names", b"a", b";b", 2), ("field-quoted", b"a=\"", b"\\\"", 2), ("field-spaces", b"", b" \t", 2), ("field-upper", b"", b"A", 2), ("field-slashes", b"", b"/", 2), ("field-value", b"a=b", b" c", 2), ("field-quoted-pairs", b"", b"a=\"b\" ; ", 2),
    ];
    for (name, head, unit, kind) in us {
        if !name.contains(&filter) { continue; }
        for m in [n, 2 * n, 4 * n] {
            let mut v = head.to_vec();
            while v.len() < m { v.extend(*unit); }
            if *kind == 3 { v.push(0); }
            go(name, 0, 0, m, &mut || {
                catch(|| match kind {
                    0 | 3 => { let _ = decode(&v).map(|s| s.len()); (v.len() as u64, 1) }
                    1 => (v.len() as u64, QueryIterator::new(&v).count() as u64),
                    _ => (v.len() as u64, FieldIterator::new(&v, b';', true).count() as u64),
                }).unwrap_or((0, 0))
            });
        }
    }
}
