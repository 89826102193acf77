mod big;
mod cost;
mod gen;
mod model;
mod ops;
mod props;
mod rng;
mod rt;
mod trans;

use gen::{Case, Gen};
use props::{Out, Prop, PROPS};
use rng::Rng;
use std::collections::{HashMap, HashSet};
use std::time::Instant;

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn arg(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).and_then(|p| a.get(p + 1).cloned())
}
fn num(k: &str, d: u64) -> u64 {
    arg(k).and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// lower bound on the number of distinct cases: bits set in a large bitmap
struct Distinct(Vec<u64>, u64);
impl Distinct {
    fn new() -> Self {
        Distinct(vec![0; 1 << 20], 0)
    }
    fn add(&mut self, h: u64) {
        let i = (h >> 38) as usize;
        let (w, b) = (i >> 6, 1u64 << (i & 63));
        if self.0[w] & b == 0 {
            self.0[w] |= b;
            self.1 += 1;
        }
    }
}

fn run_one(p: &Prop, c: &Case) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c))) {
        Ok(o) => o,
        Err(_) => {
            // a panic that is not inside a monitored call is a defect of the monitor
            eprintln!("HARNESS-ERROR property={} case={} ({:?})", p.id, c.show(), ops::call(|| ()).err());
            std::process::exit(3)
        }
    }
}

fn main() {
    ops::hook();
    ops::PORTABLE.store(arg("--portable").is_some(), std::sync::atomic::Ordering::Relaxed);
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "run" => {
            if arg("--prop").as_deref() == Some("C22") && cost::meter() < 90_000 && cfg!(all(target_arch = "x86_64", not(miri))) {
                eprintln!("HARNESS-ERROR the stack meter does not measure");
                std::process::exit(3)
            }
            run()
        }
        "replay" => replay(),
        "replay-many" => replay_many(),
        "outcomes" => outcomes(),
        "transcript" => transcript(),
        "stress" => {
            if let Err(e) = ops::call(stress) {
                eprintln!("HARNESS-ERROR {}", e);
                std::process::exit(3)
            }
        }
        "list" => PROPS.iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: fxdmon run|replay|outcomes ...");
            std::process::exit(2)
        }
    }
}

fn replay() {
    let p = prop(&arg("--prop").unwrap());
    if let Some(d) = arg("--dump") {
        rt::install(&d, 20);
    }
    let b = std::fs::read(arg("--case").unwrap()).unwrap();
    let c = Case::decode(&b);
    rt::case(&c.encode());
    match run_one(p, &c) {
        Out::Held(s) => println!("HELD {}", s),
        Out::Skip => println!("NOT-OBSERVED"),
        Out::Viol(m) => {
            println!("VIOLATED {}", m);
            std::process::exit(1)
        }
    }
}

fn run() {
    let p = prop(&arg("--prop").unwrap());
    let seed = num("--seed", 1);
    let secs = num("--secs", 10) as f64;
    let max = num("--max", u64::MAX);
    let keep_going = arg("--keep-going").is_some();
    let out = arg("--out");
    if let Some(d) = arg("--dump") {
        rt::install(&d, 20);
    }
    let mut st = Rng::new(seed ^ 0x5e1f);
    big::self_test(&mut || st.next());
    let mut h = 0u64;
    for b in p.id.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    let mut g = Gen { r: Rng::new(seed.wrapping_mul(0x1_0000_0001) ^ h.rotate_left(32)), dict: vec![] };
    let t0 = Instant::now();
    let feedback = rt::instrumented();
    let mut corpus: Vec<Case> = vec![];
    // per edge: cases for which it was the rarest edge reached, newest in place of a random one
    let mut rare: HashMap<u32, Vec<(Case, Vec<[u64; 2]>)>> = HashMap::new();
    let mut rare_order: Vec<u32> = vec![];
    let mut corpus_pairs: HashMap<usize, Vec<[u64; 2]>> = HashMap::new();
    let (mut n, mut held, mut skip, mut from_mut) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct = Distinct::new();
    let mut classes: HashSet<String> = HashSet::new();
    let mut kinds: HashMap<String, u64> = HashMap::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<(Case, String)> = vec![];
    let mut vsig: HashMap<String, u64> = HashMap::new();
    // static seeds for this property
    let seeds = std::fs::read(arg("--seeds").unwrap_or_default()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let mut queue: Vec<Case> = seeds
        .split("%%\n")
        .filter(|s| s.starts_with(p.id))
        .map(|s| Case::decode(s.split_once('\n').map(|x| x.1).unwrap_or("").as_bytes()))
        .filter(|c| !c.args.is_empty())
        .collect();
    queue.reverse();
    while n < max {
        if n & 63 == 0 && t0.elapsed().as_secs_f64() > secs {
            break;
        }
        if feedback && n & 1023 == 0 {
            g.dict = rt::consts().into_iter().map(|v| v & 0xffff_ffff).filter(|v| *v > 9).collect();
            rare_order = rare.keys().copied().collect();
            rare_order.sort_by_key(|e| (rt::hits(*e), *e));
        }
        let mut parent = None;
        let c = if let Some(c) = queue.pop() {
            c
        } else if feedback && !rare_order.is_empty() && g.r.below(5) == 0 {
            // one of the rarest edges: its cases are starting points
            let top = if g.r.one_in(2) { 12 } else { 60 };
            let k = g.r.below(rare_order.len().min(top));
            from_mut += 1;
            let v = &rare[&rare_order[k]];
            let (c, prs) = &v[g.r.below(v.len())];
            let o = g.r.below(v.len());
            g.mutate(c, prs, Some(&v[o].0))
        } else if feedback && !corpus.is_empty() && g.r.below(4) == 0 {
            let k = if g.r.one_in(2) { corpus.len() - 1 - g.r.below(corpus.len().min(64)) } else { g.r.below(corpus.len()) };
            parent = Some(k);
            from_mut += 1;
            let o = g.r.below(corpus.len());
            let empty = vec![];
            let prs = corpus_pairs.get(&k).unwrap_or(&empty).clone();
            g.mutate(&corpus[k], &prs, Some(&corpus[o]))
        } else {
            (p.gen)(&mut g)
        };
        let _ = parent;
        rt::case(&c.encode());
        n += 1;
        if feedback {
            rt::begin();
        }
        let o = run_one(p, &c);
        let fresh = if feedback { rt::end() } else { 0 };
        match o {
            Out::Held(cl) => {
                held += 1;
                distinct.add(c.hash());
                let kind: String = cl.chars().take_while(|c| c.is_ascii_alphabetic() || *c == '!').collect();
                if kinds.len() < 200 {
                    *kinds.entry(kind).or_default() += 1;
                }
                if classes.len() < 200_000 {
                    classes.insert(cl);
                }
                if samples.len() < 6 && (n % 997 == 5) {
                    samples.push(c.show());
                }
                if feedback {
                    let (e, hits) = rt::rarest();
                    if e != u32::MAX && (hits < 64 || hits * 200 < n) {
                        let v = rare.entry(e).or_default();
                        if v.len() < 12 {
                            v.push((c.clone(), rt::pairs()));
                        } else if hits < 64 || g.r.one_in(4) {
                            let i = g.r.below(v.len());
                            v[i] = (c.clone(), rt::pairs());
                        }
                    }
                }
                if feedback && fresh > 0 && corpus.len() < 20_000 {
                    let prs = rt::pairs();
                    if !prs.is_empty() {
                        corpus_pairs.insert(corpus.len(), prs);
                    }
                    corpus.push(c);
                }
            }
            Out::Skip => skip += 1,
            Out::Viol(m) => {
                if keep_going {
                    let s: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                    let s = s.replace("##", "#").replace("##", "#").replace("##", "#").replace("##", "#").replace("##", "#").replace("##", "#");
                    let e = vsig.entry(s).or_default();
                    *e += 1;
                    if *e == 1 && viols.len() < 40 {
                        viols.push((c, m));
                    }
                } else {
                    viols.push((c, m));
                    break;
                }
            }
        }
    }
    let (eh, et) = rt::edges();
    let mut kv: Vec<_> = kinds.into_iter().collect();
    kv.sort_by(|a, b| b.1.cmp(&a.1));
    kv.truncate(24);
    let j = format!(
        "{{\"prop\":{},\"seed\":{},\"instrumented\":{},\"executions\":{},\"held\":{},\"not_observed\":{},\"distinct\":{},\"classes\":{},\"mutated\":{},\"corpus\":{},\"edges_hit\":{},\"edges_total\":{},\"features\":{},\"wall_s\":{:.3},\"outcomes\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
        js(p.id), seed, feedback, n, held, skip, distinct.1, classes.len(), from_mut, corpus.len(), eh, et, rt::features(),
        t0.elapsed().as_secs_f64(),
        kv.iter().map(|(k, v)| format!("{}:{}", js(if k.is_empty() { "value" } else { k }), v)).collect::<Vec<_>>().join(","),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        viols.iter().map(|(c, m)| format!("{{\"case\":{},\"what\":{}}}", js(&String::from_utf8(c.encode()).unwrap()), js(m))).collect::<Vec<_>>().join(",")
    );
    match out {
        Some(f) => std::fs::write(f, j).unwrap(),
        None => {
            println!("{}", j);
        }
    }
    if let Some(f) = arg("--distinct-out") {
        std::fs::write(f, distinct.0.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
    }
    if let Some(f) = arg("--corpus-out") {
        // rarest paths first, then an even spread of the cases that found something new
        let want = num("--corpus-max", 2000) as usize;
        let mut b = vec![];
        rare_order = rare.keys().copied().collect();
        rare_order.sort_by_key(|e| (rt::hits(*e), *e));
        for round in 0..2 {
            for e in &rare_order {
                if let Some((c, _)) = rare[e].get(round) {
                    b.extend_from_slice(&c.encode());
                    b.extend_from_slice(b"%%\n");
                }
            }
        }
        std::fs::write(format!("{}.rare", f), &b).unwrap();
        b.clear();
        let step = (corpus.len() as f64 / want as f64).max(1.0);
        let mut k = 0.0;
        while (k as usize) < corpus.len() {
            b.extend_from_slice(&corpus[k as usize].encode());
            b.extend_from_slice(b"%%\n");
            k += step;
        }
        std::fs::write(f, b).unwrap();
    }
    if keep_going {
        for (c, m) in &viols {
            println!("{} :: {}", m, c.show());
        }
    }
    std::process::exit(if viols.is_empty() { 0 } else { 1 });
}

/// run many recorded cases of one property (under a sanitizer, mostly)
fn replay_many() {
    let p = prop(&arg("--prop").unwrap());
    if let Some(d) = arg("--dump") {
        rt::install(&d, 120);
    }
    let cs = trans::read_cases(&std::fs::read(arg("--cases").unwrap()).unwrap());
    let (part, parts) = (num("--part", 0) as usize, num("--parts", 1) as usize);
    let secs = num("--secs", u64::MAX) as f64;
    let t0 = Instant::now();
    let verbose = arg("--verbose").is_some();
    let bare = arg("--bare").is_some();
    let (mut n, mut held) = (0u64, 0u64);
    for (i, c) in cs.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        if verbose {
            eprintln!("CASE {}", i);
        }
        rt::case(&c.encode());
        n += 1;
        if bare {
            match trans::bare(c) {
                Ok(b) => held += b as u64,
                Err(m) => {
                    println!("VIOLATED case {} {} :: {}", i, m, c.show());
                    std::process::exit(1)
                }
            }
            continue;
        }
        match run_one(p, c) {
            Out::Held(_) => held += 1,
            Out::Skip => {}
            Out::Viol(m) => {
                println!("VIOLATED case {} {} :: {}", i, m, c.show());
                std::process::exit(1)
            }
        }
    }
    println!("DONE {} {}", n, held);
}

fn workload() -> Vec<Case> {
    match arg("--cases") {
        Some(f) => trans::read_cases(&std::fs::read(f).unwrap()),
        None => trans::cases(num("--seed", 1), num("--n", 1000) as usize),
    }
}

fn outcomes() {
    let cs = workload();
    if let Some(i) = arg("--index") {
        std::fs::write(arg("--case-out").unwrap(), cs[i.parse::<usize>().unwrap()].encode()).unwrap();
        return;
    }
    if let Some(w) = arg("--write") {
        let mut b = vec![];
        for c in &cs {
            b.extend_from_slice(&c.encode());
            b.extend_from_slice(b"%%\n");
        }
        std::fs::write(w, b).unwrap();
        return;
    }
    if let Some(d) = arg("--dump") {
        rt::install(&d, 30);
    }
    let v = trans::digests(&cs, &arg("--order").unwrap_or_default(), num("--secs", 1_000_000) as f64);
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(arg("--out").unwrap(), b).unwrap();
}

fn transcript() {
    if let Some(d) = arg("--dump") {
        rt::install(&d, 30);
    }
    let c = Case::decode(&std::fs::read(arg("--case").unwrap()).unwrap());
    rt::case(&c.encode());
    println!("{}", trans::transcript(&c).unwrap_or_else(|| "NOT-OBSERVED".into()));
}

fn stress() {
    if !fxdshim::thread_safe() {
        println!("NOT-THREAD-SAFE");
        std::process::exit(1);
    }
    let s = if arg("--cold").is_some() {
        trans::cold(num("--seed", 1), num("--threads", 8) as usize, num("--groups", 24) as usize)
    } else {
        trans::stress(num("--seed", 1), num("--secs", 10) as f64, num("--threads", 8) as usize, num("--groups", u64::MAX))
    };
    println!("STRESS calls={} groups={} overlapping={}", s.calls, s.clusters, s.overlaps);
    if let Some((cs, i, want, got)) = s.bad {
        if let Some(f) = arg("--case-out") {
            let mut b = vec![];
            for c in &cs {
                b.extend_from_slice(&c.encode());
                b.extend_from_slice(b"%%\n");
            }
            std::fs::write(f, b).unwrap();
        }
        println!("MISMATCH case {} alone gave {:?} but gave {:?}", cs[i].show(), want, got);
        std::process::exit(1);
    }
}
