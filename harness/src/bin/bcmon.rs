//! Driver of the monitors.
//!
//!   bcmon sweep  --prop C01 --seed 1 --shard 0/8 [--deep] [--max N] [--seconds S]
//!   bcmon random --prop C01 --seed 1 [--max N] [--seconds S]
//!   bcmon case   --prop C01 --json '{...}' | --file F
//!   bcmon digest --seed 1 --order 0 --max PER_SYMBOLOGY
//!   bcmon fresh  < case
//! common: --dict F --known sig,sig --out F --trace F
//!
//! Exit codes: 0 nothing wrong, 10 violation, 12 undecided.

use bcmon::case::Case;
use bcmon::check::{self, Obs};
use bcmon::jsn::{self, J};
use bcmon::{gen, hist, mem, rng, sweep, threads};
use std::collections::BTreeMap;
use std::io::{Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Args {
    mode: String,
    o: BTreeMap<String, String>,
}

impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.o.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| fail(&format!("bad --{} {}", k, v))))
    }
}

fn fail(m: &str) -> ! {
    eprintln!("bcmon: {}", m);
    std::process::exit(12)
}

static SERIAL: AtomicU64 = AtomicU64::new(0);
static CURRENT: AtomicPtr<Case> = AtomicPtr::new(std::ptr::null_mut());
static FREEZE: AtomicBool = AtomicBool::new(false);
static OUT: Mutex<Option<String>> = Mutex::new(None);

struct Run {
    prop: String,
    obs: Obs,
    started: Instant,
    seconds: f64,
    max: u64,
    tried: u64,
    trace: Option<std::fs::File>,
    violation: Option<(Case, String)>,
    error: Option<String>,
    ended: &'static str,
}

/// Where a panic that was not caught as an observation came from.
fn outcome(prop: &str, case: &Case, obs: &mut Obs) -> Result<check::Verdict, String> {
    match catch_unwind(AssertUnwindSafe(|| check::check(prop, case, obs))) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = check::last_panic();
            if m.contains("(src/") || m.contains("(sut/") || m.contains("harness") {
                Err(format!("harness: {}", m))
            } else {
                Ok(Err(format!("the call panicked: {}", m)))
            }
        }
    }
}

impl Run {
    fn one(&mut self, case: Case) -> bool {
        self.tried += 1;
        if let Some(f) = &mut self.trace {
            let _ = f.set_len(0);
            let _ = f.rewind();
            let _ = f.write_all(case.to_j().write().as_bytes());
        }
        SERIAL.fetch_add(1, Ordering::Relaxed);
        CURRENT.store(&case as *const Case as *mut Case, Ordering::Release);
        let r = outcome(&self.prop, &case, &mut self.obs);
        CURRENT.store(std::ptr::null_mut(), Ordering::Release);
        while FREEZE.load(Ordering::Acquire) {
            std::thread::sleep(Duration::from_millis(20));
        }
        match r {
            Err(e) => {
                self.error = Some(format!("{} on {}", e, case.to_j().write()));
                false
            }
            Ok(Ok(true)) => {
                self.obs.evals += 1;
                if self.obs.distinct.len() < check::DISTINCT_CAP {
                    self.obs.distinct.insert(case.key());
                }
                let n = self.obs.evals;
                if n <= 2 || n.is_power_of_two() && self.obs.samples.len() < 12 {
                    let j = case.to_j();
                    if j.write().len() < 600 {
                        self.obs.samples.push(j);
                    }
                }
                self.more()
            }
            Ok(Ok(false)) => {
                self.obs.skipped += 1;
                self.more()
            }
            Ok(Err(m)) => {
                let (c, m) = self.shrink(case, m);
                self.violation = Some((c, m));
                false
            }
        }
    }

    fn more(&mut self) -> bool {
        if self.tried >= self.max {
            self.ended = "count";
            return false;
        }
        if self.tried % 16 == 0 && self.started.elapsed().as_secs_f64() > self.seconds {
            self.ended = "time";
            return false;
        }
        true
    }

    fn shrink(&mut self, case: Case, msg: String) -> (Case, String) {
        let mut quiet = Obs { quiet: true, known: self.obs.known.clone(), ..Obs::default() };
        let (mut best, mut why) = (case, msg);
        let until = Instant::now() + Duration::from_secs(4);
        let mut tries = 0;
        'again: loop {
            for c in best.simpler() {
                tries += 1;
                if tries > 20_000 || Instant::now() > until {
                    break 'again;
                }
                if let Ok(Err(m)) = outcome(&self.prop, &c, &mut quiet) {
                    best = c;
                    why = m;
                    continue 'again;
                }
            }
            break;
        }
        (best, why)
    }

    fn report(&self) -> J {
        let o = &self.obs;
        J::obj(vec![
            ("evals", J::n(o.evals)),
            ("skipped", J::n(o.skipped)),
            ("distinct", J::n(o.distinct.len())),
            ("ended", J::s(self.ended)),
            ("seconds", J::s(format!("{:.2}", self.started.elapsed().as_secs_f64()))),
            ("counts", J::Obj(o.counts.iter().map(|(k, v)| (k.to_string(), J::n(v))).collect())),
            ("dims", J::Obj(o.dims.iter().map(|(k, v)| (k.to_string(), J::n(v.len()))).collect())),
            ("findings", J::Obj(o.findings.iter().map(|(k, v)| (k.to_string(), J::n(v))).collect())),
            ("samples", J::Arr(o.samples.clone())),
            ("worst_peak_per_mille", J::n(mem::WORST_PEAK.with(|w| w.get()))),
            ("worst_total_per_mille", J::n(mem::WORST_TOTAL.with(|w| w.get()))),
            ("error", self.error.as_ref().map_or(J::Null, J::s)),
            (
                "violation",
                self.violation.as_ref().map_or(J::Null, |(c, m)| J::obj(vec![("case", c.to_j()), ("message", J::s(m))])),
            ),
        ])
    }
}

/// The sets of distinct cases and of covered points, for counting across processes.
fn write_keys(p: &str, o: &Obs) {
    let mut b = vec![];
    let mut put = |name: &str, v: &std::collections::HashSet<u64>| {
        b.extend((name.len() as u32).to_le_bytes());
        b.extend(name.as_bytes());
        b.extend((v.len() as u64).to_le_bytes());
        for k in v {
            b.extend(k.to_le_bytes());
        }
    };
    put("", &o.distinct);
    for (k, v) in &o.dims {
        put(k, v);
    }
    if std::fs::write(p, b).is_err() {
        fail("cannot write the keys");
    }
}

/// Prints the sizes of the unions of the sets in key files.
fn union(files: &str) {
    let mut all: BTreeMap<String, std::collections::HashSet<u64>> = BTreeMap::new();
    for f in files.split(',').filter(|f| !f.is_empty()) {
        let Ok(b) = std::fs::read(f) else {
            continue;
        };
        let mut p = 0;
        let mut take = |n: usize| {
            let s = b.get(p..p + n);
            p += n;
            s
        };
        while let Some(n) = take(4) {
            let n = u32::from_le_bytes(n.try_into().unwrap()) as usize;
            let Some(name) = take(n) else { break };
            let name = String::from_utf8_lossy(name).to_string();
            let Some(c) = take(8) else { break };
            let set = all.entry(name).or_default();
            for _ in 0..u64::from_le_bytes(c.try_into().unwrap()) {
                let Some(k) = take(8) else { break };
                set.insert(u64::from_le_bytes(k.try_into().unwrap()));
            }
        }
    }
    println!("{}", J::Obj(all.iter().map(|(k, v)| (k.clone(), J::n(v.len()))).collect()).write());
}

fn emit(j: &J) {
    let s = j.write();
    match &*OUT.lock().unwrap_or_else(|e| e.into_inner()) {
        Some(p) => {
            if std::fs::write(p, &s).is_err() {
                fail("cannot write the result");
            }
        }
        None => println!("{}", s),
    }
}

/// Ticks of CPU time used by a thread, and its state.
#[cfg(target_os = "linux")]
fn task(tid: &str) -> Option<(u64, char)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((r.get(11)?.parse::<u64>().ok()? + r.get(12)?.parse::<u64>().ok()?, r[0].chars().next()?))
}

/// Looks for a call that never returns: it burns CPU for minutes, or every thread sleeps.
#[cfg(target_os = "linux")]
fn watchdog(limit_s: u64) {
    let main = std::process::id().to_string();
    let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()));
    let mut serial = u64::MAX;
    let mut base = 0;
    let mut progress = 0;
    let mut asleep = 0;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let tids: Vec<String> = std::fs::read_dir("/proc/self/task")
            .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect())
            .unwrap_or_default();
        let mut cpu = 0;
        let mut all_asleep = true;
        for t in tids.iter().filter(|t| Some(*t) != me.as_ref()) {
            if let Some((c, st)) = task(t) {
                cpu += c;
                all_asleep &= st == 'S';
            }
        }
        let s = SERIAL.load(Ordering::Relaxed);
        let p = threads::PROGRESS.load(Ordering::Relaxed) + hist::PROGRESS.load(Ordering::Relaxed);
        if s != serial || p != progress || CURRENT.load(Ordering::Acquire).is_null() {
            serial = s;
            progress = p;
            base = cpu;
            asleep = 0;
            continue;
        }
        asleep = if all_asleep && task(&main).is_some() { asleep + 1 } else { 0 };
        let hung = cpu.saturating_sub(base) > limit_s * 100;
        if hung || asleep > 60 {
            FREEZE.store(true, Ordering::Release);
            std::thread::sleep(Duration::from_millis(200));
            let c = CURRENT.load(Ordering::Acquire);
            if c.is_null() || SERIAL.load(Ordering::Relaxed) != s {
                FREEZE.store(false, Ordering::Release);
                continue;
            }
            let case = unsafe { &*c }.to_j();
            let m = if hung {
                format!("no result after {} s of CPU time", limit_s)
            } else {
                "no result: every thread has been asleep for 30 s".to_string()
            };
            emit(&J::obj(vec![
                ("evals", J::n(s)),
                ("distinct", J::n(0)),
                ("ended", J::s("hang")),
                ("violation", J::obj(vec![("case", case), ("message", J::s(m))])),
            ]));
            std::process::exit(10);
        }
    }
}

fn load_dict(p: &str) {
    let s = std::fs::read_to_string(p).unwrap_or_else(|_| fail("cannot read the dictionary"));
    let j = jsn::parse(&s).unwrap_or_else(|e| fail(&e));
    gen::set_dict(gen::Dict::from_j(&j));
}

#[cfg(target_os = "linux")]
fn limit_memory(bytes: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    const DATA: i32 = 2;
    const CORE: i32 = 4;
    unsafe {
        setrlimit(DATA, &[bytes, bytes]);
        setrlimit(CORE, &[0, 0]);
    }
}

/// Runs `f` in a destructor, while a panic unwinds.
fn while_unwinding<R>(f: impl Fn() -> R) -> R {
    struct D<'a, R, F: Fn() -> R>(&'a F, &'a mut Option<R>);
    impl<R, F: Fn() -> R> Drop for D<'_, R, F> {
        fn drop(&mut self) {
            *self.1 = Some((self.0)());
        }
    }
    let mut r = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(&f, &mut r);
        std::panic::resume_unwind(Box::new(()));
    }));
    r.unwrap_or_else(|| fail("no result"))
}

/// Everything runs on the stack that a thread has by default, except what asks for another place.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let place = args.windows(2).find(|w| w[0] == "--place").map_or("", |w| w[1].as_str());
    if place == "main" {
        return body();
    }
    let b = std::thread::Builder::new().stack_size(2 << 20);
    let b = if place.is_empty() { b } else { b.name(place.to_string()) };
    let r = b.spawn(body).map(|t| t.join());
    if !matches!(r, Ok(Ok(()))) {
        std::process::exit(101);
    }
}

fn body() {
    let mut it = std::env::args().skip(1);
    let mut a = Args { mode: it.next().unwrap_or_default(), o: BTreeMap::new() };
    while let Some(k) = it.next() {
        let k = k.strip_prefix("--").unwrap_or_else(|| fail("bad argument")).to_string();
        let v = if k == "deep" { "1".into() } else { it.next().unwrap_or_else(|| fail("missing value")) };
        a.o.insert(k, v);
    }
    check::quiet_panics();
    if let Some(d) = a.get("dict") {
        load_dict(d);
    }
    *OUT.lock().unwrap() = a.get("out").map(|s| s.to_string());
    let seed = a.num("seed", 1);
    if a.mode == "fresh" {
        let mut s = String::new();
        let _ = std::io::stdin().read_to_string(&mut s);
        let c = jsn::parse(&s).ok().and_then(|j| Case::from_j(&j)).unwrap_or_else(|| fail("bad case"));
        match bcmon::fresh::result(&c) {
            Some(h) => println!("{}", h),
            None => fail("not such a case"),
        }
        return;
    }
    if a.mode == "firstuse" {
        if let Some(e) = bcmon::first::child(seed) {
            println!("{}", e);
            std::process::exit(10);
        }
        return;
    }
    if a.mode == "fromfuzz" {
        // The case a fuzzer input stands for.
        let b = std::fs::read(a.get("file").unwrap_or_else(|| fail("no file"))).unwrap_or_else(|_| fail("no file"));
        let c = gen::case(a.get("prop").unwrap_or("C13"), &mut rng::Src::Bytes(&b, 0));
        emit(&c.to_j());
        return;
    }
    if a.mode == "union" {
        return union(a.get("files").unwrap_or_default());
    }
    if a.mode == "inputs" {
        // Cases for the cross-build probe, one per line.
        let mut s = String::new();
        for c in gen::inputs(seed, a.num("max", 100) as usize) {
            s += &c.line().unwrap_or_default();
        }
        match a.get("out") {
            Some(p) => std::fs::write(p, s).unwrap_or_else(|_| fail("cannot write")),
            None => print!("{}", s),
        }
        return;
    }
    if a.mode == "digest" {
        let list = || hist::digest(seed, a.num("order", 0), a.num("max", 1) as usize);
        let (h, t) = if a.get("place") == Some("unwinding") { while_unwinding(list) } else { list() };
        let mut s = String::new();
        for (h, t) in h.iter().zip(&t) {
            s += &format!("{:016x} {}\n", h, t);
        }
        match a.get("out") {
            Some(p) => std::fs::write(p, s).unwrap_or_else(|_| fail("cannot write")),
            None => print!("{}", s),
        }
        return;
    }
    if a.mode == "wide" {
        #[cfg(target_os = "linux")]
        limit_memory(300 << 20);
        let c = jsn::parse(a.get("json").unwrap_or_default()).ok().and_then(|j| Case::from_j(&j)).unwrap_or_else(|| fail("bad case"));
        match bcmon::big::answer(&c) {
            Some(n) => println!("{}", n),
            None => fail("no text"),
        }
        return;
    }
    #[cfg(target_os = "linux")]
    if !cfg!(miri) && a.get("nolimit").is_none() {
        limit_memory(a.num("data", 3 << 30));
    }
    let mut run = Run {
        prop: a.get("prop").unwrap_or_else(|| fail("no property")).to_string(),
        obs: Obs { known: a.get("known").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default(), ..Obs::default() },
        started: Instant::now(),
        seconds: a.num("seconds", 1 << 30) as f64,
        max: a.num("max", u64::MAX),
        tried: 0,
        trace: a.get("trace").map(|p| std::fs::File::create(p).unwrap_or_else(|_| fail("cannot trace"))),
        violation: None,
        error: None,
        ended: "all",
    };
    #[cfg(target_os = "linux")]
    if !cfg!(miri) {
        let limit = a.num("hang", 100);
        std::thread::spawn(move || watchdog(limit));
    }
    let prop = run.prop.clone();
    match a.mode.as_str() {
        "sweep" => {
            let (i, n) = a.get("shard").unwrap_or("0/1").split_once('/').unwrap_or_else(|| fail("bad shard"));
            let shard = (i.parse().unwrap_or(0), n.parse().unwrap_or(1));
            sweep::sweep(&prop, a.get("deep").is_some(), seed, shard, &mut |c| run.one(c));
        }
        "long" => {
            sweep::long(&prop, a.get("deep").is_some(), &mut |c| run.one(c));
        }
        "random" => {
            // Every case has a source of its own, so that it does not depend on those before it.
            for k in 0u64.. {
                let mut src = rng::Src::seeded(rng::mix(seed ^ 0xca5e) ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15));
                let c = gen::case(&prop, &mut src);
                if !run.one(c) {
                    break;
                }
            }
        }
        "case" => {
            let s = match a.get("json") {
                Some(s) => s.to_string(),
                None => std::fs::read_to_string(a.get("file").unwrap_or_else(|| fail("no case"))).unwrap_or_else(|_| fail("no case")),
            };
            let j = jsn::parse(s.trim()).unwrap_or_else(|e| fail(&e));
            let j = j.get("replay_case").cloned().unwrap_or(j);
            let c = Case::from_j(&j).unwrap_or_else(|| fail("bad case"));
            run.one(c);
        }
        _ => fail("bad mode"),
    }
    emit(&run.report());
    if let Some(p) = a.get("keys") {
        write_keys(p, &run.obs);
    }
    if let Some((_, m)) = &run.violation {
        eprintln!("violation: {}", m);
        std::process::exit(10);
    }
    if let Some(e) = &run.error {
        fail(e);
    }
}
