//! Transcripts: everything one hostile case lets a user see, as text without addresses, line numbers
//! or panic messages, so that it can be compared between builds, orders of execution and threads.
use crate::gen::{Case, Gen};
use crate::ops::*;
use crate::props::{dirty_dest, g_hostile};
use crate::rng::Rng;
use fxdshim as x;
use fxdshim::FD;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex};

fn fail(f: &Fail) -> String {
    match f {
        Fail::Panic(_) => "panic".into(),
        o => o.to_string(),
    }
}

fn seen(o: &mut String, v: &FD) {
    match call(|| x::to_string(v, -1)) {
        Ok(t) => {
            let _ = write!(o, " {} {} {} {} {}", t, x::is_neg(v), x::is_zero(v), x::intg(v), x::frac(v));
        }
        Err(_) => o.push_str(" panic"),
    }
    if portable() {
        return;
    }
    match call(|| x::hash64(v)) {
        Ok(h) => {
            let _ = write!(o, " {:x}", h);
        }
        Err(_) => o.push_str(" panic"),
    }
}

/// operands of a hostile case
pub struct Ops {
    op: String,
    a: FD,
    b: FD,
    dest: FD,
    p: i128,
    bytes: Vec<u8>,
    deep: bool,
}

pub fn prepare(c: &Case) -> Option<Ops> {
    let op = c.s(0).to_string();
    let (a, b) = if op == "parse" { (FD::zero(), FD::zero()) } else { (build(c.s(1))?, build(c.s(2)).unwrap_or_else(FD::zero)) };
    let mut p: i128 = c.s(3).parse().unwrap_or(4);
    if portable() {
        p = p.clamp(i32::MIN as i128, u32::MAX as i128);
    }
    Some(Ops { op, a, b, dest: dirty_dest(c), p, bytes: c.args.get(1).cloned().unwrap_or_default(), deep: c.hash() % 8 == 0 })
}

/// one call, or a few closely related ones
pub fn perform(k: &Ops) -> String {
    let mut o = String::with_capacity(160);
    o.push_str(&k.op);
    if let Some(bop) = Bin::parse(&k.op) {
        let mut r = k.dest.clone();
        match bop.to(&k.a, &k.b, &mut r, k.p.clamp(0, u64::MAX as i128) as usize) {
            Ok(()) => {
                seen(&mut o, &r);
                if k.deep {
                    o.push_str(&probe(&r));
                }
            }
            Err(f) => {
                let _ = write!(o, " {}", fail(&f));
                seen(&mut o, &r);
            }
        }
        match bop.op(&k.a, &k.b) {
            Ok(v) => seen(&mut o, &v),
            Err(Fail::Panic(m)) => {
                // the operator's message names the cause; its location is not an outcome
                let m = m.to_lowercase();
                let _ = write!(o, " op!{}{}", m.contains("overflow"), m.contains("zero"));
            }
            Err(f) => o.push_str(&fail(&f)),
        }
        return o;
    }
    match k.op.as_str() {
        "parse" => {
            let mut r = k.dest.clone();
            let e = call_r(|| x::parse_bytes(&mut r, &k.bytes, true));
            let _ = write!(o, " {:?}", e.map_err(|f| fail(&f)));
            seen(&mut o, &r);
            // without reset, onto what the caller has set to zero
            let mut u = k.dest.clone();
            x::set_zero(&mut u);
            let e = call_r(|| x::parse_bytes(&mut u, &k.bytes, false));
            let _ = write!(o, " {:?}", e.map_err(|f| fail(&f)));
            seen(&mut o, &u);
            if let Ok(t) = std::str::from_utf8(&k.bytes) {
                match call_r(|| x::parse(t)) {
                    Ok(v) => seen(&mut o, &v),
                    Err(f) => o.push_str(&fail(&f)),
                }
            }
            if k.deep {
                o.push_str(&probe(&r));
            }
        }
        "round" => {
            let f = k.p.clamp(isize::MIN as i128, if portable() { i32::MAX as i128 } else { isize::MAX as i128 }) as isize;
            let mut r = k.dest.clone();
            match call(|| x::round_to(&k.a, &mut r, f)) {
                Ok(()) => seen(&mut o, &r),
                Err(_) => {
                    o.push_str(" panic");
                    seen(&mut o, &r);
                }
            }
            let mut v = k.a.clone();
            match call(|| x::round(&mut v, f)) {
                Ok(()) => seen(&mut o, &v),
                Err(_) => {
                    o.push_str(" panic");
                    seen(&mut o, &v);
                }
            }
        }
        "fmt" => {
            let f = k.p.clamp(isize::MIN as i128, 70_000) as isize;
            match call(|| x::to_string(&k.a, f)) {
                Ok(t) => o.push_str(&t),
                Err(_) => o.push_str(" panic"),
            }
            let mut buf = b"1.5 ".to_vec();
            match call(|| x::append(&k.a, &mut buf, f.min(100))) {
                Ok(()) => o.push_str(&String::from_utf8_lossy(&buf)),
                Err(_) => o.push_str(" panic"),
            }
        }
        "cmp" => {
            let _ = write!(o, "{:?}", call(|| x::relations(&k.a, &k.b)).map_err(|f| fail(&f)));
            if !portable() {
                let _ = write!(o, "{:?}", call(|| x::hash64(&k.a)).map_err(|f| fail(&f)));
            }
        }
        "toint" => {
            let (i, u) = (call_r(|| x::as_i64(&k.a)), call_r(|| x::as_u64(&k.a)));
            for v in [call(|| x::from_i64(*i.as_ref().unwrap_or(&-7))), call(|| x::from_u64(*u.as_ref().unwrap_or(&u64::MAX)))] {
                match v {
                    Ok(v) => seen(&mut o, &v),
                    Err(_) => o.push_str(" panic"),
                }
            }
            let _ = write!(o, "{:?}{:?}", i.map_err(|f| fail(&f)), u.map_err(|f| fail(&f)));
        }
        _ => {}
    }
    o
}

pub fn transcript(c: &Case) -> Option<String> {
    prepare(c).map(|k| perform(&k))
}

/// the calls alone, for interpreters that are thousands of times slower: nothing is modelled, only the
/// text is validated
pub fn bare(c: &Case) -> Result<bool, String> {
    let Some(mut k) = prepare(c) else { return Ok(false) };
    k.deep = false;
    let ok = |b: &[u8]| if b.is_ascii() && std::str::from_utf8(b).is_ok() { Ok(()) } else { Err(format!("text is not ASCII: {:?}", b)) };
    ok(perform(&k).as_bytes())?;
    let n = 1 + (c.hash() % 5) as usize;
    let mut buf = vec![b'#'; n];
    for f in [-1, ((c.hash() >> 8) % 40) as isize] {
        if call(|| x::append(&k.a, &mut buf, f)).is_ok() {
            ok(&buf)?;
        }
    }
    Ok(true)
}

pub fn digest(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in s.bytes() {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    h | 1
}

/// deterministic workload: clusters of a base case and relatives of it (one argument changed, operands
/// swapped, signs flipped, another operation on the same operands), so that anything remembered from
/// one call is likely to be mistaken for the next
pub fn cases(seed: u64, n: usize) -> Vec<Case> {
    let mut g = Gen { r: Rng::new(seed ^ 0x7ab5), dict: vec![] };
    let mut v: Vec<Case> = vec![];
    while v.len() < n {
        let c = g_hostile(&mut g);
        let base = c.clone();
        v.push(c);
        for _ in 0..g.r.below(4) {
            let mut d = base.clone();
            match g.r.below(6) {
                0 => d.args.swap(1, 2),
                1 => {
                    let k = 1 + g.r.below(2);
                    if d.args[k].first() == Some(&b'-') {
                        d.args[k].remove(0);
                    } else {
                        d.args[k].insert(0, b'-');
                    }
                }
                2 if base.s(0) != "parse" => d.args[0] = g.r.pick(&["add", "sub", "mul", "div", "rem", "cmp"]).as_bytes().to_vec(),
                3 => d.args[3] = g.r.range(-40, 40).to_string().into_bytes(),
                _ => d = g.mutate(&d, &[], None),
            }
            v.push(d);
        }
    }
    v.truncate(n);
    v
}

pub fn read_cases(b: &[u8]) -> Vec<Case> {
    String::from_utf8_lossy(b).split("%%\n").filter(|s| !s.is_empty()).map(|s| Case::decode(s.as_bytes())).filter(|c| !c.args.is_empty()).collect()
}

/// digests of all cases, executed in the given order
pub fn digests(cs: &[Case], order: &str, secs: f64) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut ix: Vec<usize> = (0..cs.len()).collect();
    match order {
        "rev" => ix.reverse(),
        "shuf" => {
            let mut r = Rng::new(99);
            for i in (1..ix.len()).rev() {
                let j = r.below(i + 1);
                ix.swap(i, j);
            }
        }
        _ => {}
    }
    let mut out = vec![0u64; cs.len()];
    for (n, i) in ix.into_iter().enumerate() {
        if t0.elapsed().as_secs_f64() > secs {
            // in order, the first n are done
            out.truncate(n);
            return out;
        }
        crate::rt::case(&cs[i].encode());
        if let Some(t) = transcript(&cs[i]) {
            out[i] = digest(&t);
        }
    }
    out
}

pub struct Stress {
    pub calls: u64,
    pub clusters: u64,
    pub overlaps: u64,
    pub bad: Option<(Vec<Case>, usize, String, String)>,
}

/// Threads hammer a small group of related cases over shared operands; what each case gives alone was
/// recorded before any other thread ran.
pub fn stress(seed: u64, secs: f64, threads: usize, max_groups: u64) -> Stress {
    let t0 = std::time::Instant::now();
    let calls = AtomicU64::new(0);
    let overlaps = AtomicU64::new(0);
    let mut groups = 0u64;
    let mut bad: Option<(Vec<Case>, usize, String, String)> = None;
    let pool = cases(seed, 60_000.min(200 + max_groups.min(10_000) as usize * 12));
    let mut at = 0;
    while bad.is_none() && t0.elapsed().as_secs_f64() < secs && groups < max_groups {
        let mut cs = vec![];
        let mut ks = vec![];
        while ks.len() < 6 {
            let c = &pool[at % pool.len()];
            at += 1;
            // a panicking call takes the panic machinery's locks and would serialise the threads
            if let Some(k) = prepare(c) {
                let t = perform(&k);
                if !t.contains("panic") && !t.contains("op!") {
                    cs.push(c.clone());
                    ks.push(k);
                }
            }
        }
        let want: Vec<String> = ks.iter().map(perform).collect();
        // order dependence inside the group: reversed, and twice in a row
        for i in (0..ks.len()).rev() {
            for _ in 0..2 {
                let got = perform(&ks[i]);
                if got != want[i] && bad.is_none() {
                    bad = Some((cs.clone(), i, want[i].clone(), got));
                }
            }
        }
        if bad.is_some() {
            break;
        }
        groups += 1;
        let bar = Barrier::new(threads);
        let stop = AtomicBool::new(false);
        let active = AtomicU64::new(0);
        let found: Mutex<Option<(usize, String)>> = Mutex::new(None);
        let reps = if cfg!(miri) { 2 } else { 400 };
        // shared operands: plain references to the same values on every thread
        let ks = Share(&ks);
        let (ksr, wantr) = (&ks, &want);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (bar, stop, active, found, calls, overlaps) = (&bar, &stop, &active, &found, &calls, &overlaps);
                s.spawn(move || {
                    let ks = ksr.get();
                    bar.wait();
                    active.fetch_add(1, Relaxed);
                    let mut r = Rng::new(t as u64 * 77 + 5);
                    let mut done = 0;
                    let mut ov = 0;
                    for n in 0..reps {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let i = if n & 1 == 0 { (t + n / 2) % ks.len() } else { r.below(ks.len()) };
                        let got = perform(&ks[i]);
                        done += 1;
                        ov += (active.load(Relaxed) > 1) as u64;
                        if got != wantr[i] {
                            *found.lock().unwrap() = Some((i, got));
                            stop.store(true, Relaxed);
                        }
                    }
                    active.fetch_sub(1, Relaxed);
                    calls.fetch_add(done, Relaxed);
                    overlaps.fetch_add(ov, Relaxed);
                });
            }
        });
        if let Some((i, got)) = found.into_inner().unwrap() {
            bad = Some((cs, i, want[i].clone(), got));
        }
    }
    Stress { calls: calls.into_inner(), clusters: groups, overlaps: overlaps.into_inner(), bad }
}

/// The very first calls of a process, made by all threads at once: nothing is prepared or called
/// beforehand, so whatever the code sets up on first use is set up under contention. Afterwards the
/// same calls are made alone.
pub fn cold(seed: u64, threads: usize, n: usize) -> Stress {
    let cs: Vec<Case> = cases(seed, 3 * n).into_iter().filter(|c| c.args.iter().map(|a| a.len()).sum::<usize>() < 400).take(n).collect();
    let ready = AtomicU64::new(0);
    let all: Vec<Vec<Option<String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (cs, ready) = (&cs, &ready);
                s.spawn(move || {
                    // relaxed on purpose: the wait itself orders nothing
                    ready.fetch_add(1, Relaxed);
                    while ready.load(Relaxed) < threads as u64 {
                        std::hint::spin_loop();
                        #[cfg(miri)]
                        std::thread::yield_now();
                    }
                    let mut o = vec![None; cs.len()];
                    for k in 0..cs.len() {
                        // pairs of threads make the same call, the pairs start at different ones
                        let i = (k + t / 2 * 5) % cs.len();
                        o[i] = transcript(&cs[i]);
                    }
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut bad = None;
    for (i, c) in cs.iter().enumerate() {
        let want = transcript(c);
        for o in &all {
            if o[i] != want && bad.is_none() {
                bad = Some((cs.clone(), i, format!("{:?}", want), format!("{:?}", o[i])));
            }
        }
    }
    let calls = (threads * cs.len()) as u64;
    Stress { calls, clusters: 1, overlaps: calls, bad }
}

/// lets operands cross threads even if the type stopped being Sync (that is reported separately)
struct Share<'a>(&'a Vec<Ops>);
unsafe impl Sync for Share<'_> {}
unsafe impl Send for Share<'_> {}
impl<'a> Share<'a> {
    fn get(&self) -> &'a Vec<Ops> {
        self.0
    }
}
