//! Coverage-guided workload: libFuzzer chooses the cases, the same monitors judge them.
//! BCFUZZ_PROP, BCFUZZ_OUT, BCFUZZ_DICT, BCFUZZ_KNOWN in the environment.
#![no_main]

use bcmon::check::{self, Obs};
use bcmon::jsn::{self, J};
use bcmon::rng::Src;
use bcmon::gen;
use std::collections::HashSet;

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
    fn _exit(c: i32) -> !;
}

struct State {
    prop: String,
    out: String,
    obs: Obs,
    tried: u64,
    distinct: HashSet<u64>,
}

static mut STATE: Option<State> = None;

fn report(s: &State, violation: J) {
    let j = J::obj(vec![
        ("evals", J::n(s.obs.evals)),
        ("skipped", J::n(s.obs.skipped)),
        ("distinct", J::n(s.distinct.len())),
        ("ended", J::s("count")),
        ("counts", J::Obj(s.obs.counts.iter().map(|(k, v)| (k.to_string(), J::n(v))).collect())),
        ("findings", J::Obj(s.obs.findings.iter().map(|(k, v)| (k.to_string(), J::n(v))).collect())),
        
        ("samples", J::Arr(s.obs.samples.clone())),
        ("violation", violation),
    ]);
    let _ = std::fs::write(&s.out, j.write());
}

#[allow(static_mut_refs)]
extern "C" fn at_exit() {
    if let Some(s) = unsafe { STATE.as_ref() } {
        report(s, J::Null);
        if let Ok(p) = std::env::var("BCFUZZ_KEYS") {
            let mut b = 0u32.to_le_bytes().to_vec();
            b.extend((s.distinct.len() as u64).to_le_bytes());
            for k in &s.distinct {
                b.extend(k.to_le_bytes());
            }
            let _ = std::fs::write(p, b);
        }
    }
}

fn init() -> State {
    check::quiet_panics();
    if let Ok(p) = std::env::var("BCFUZZ_DICT") {
        if let Some(j) = std::fs::read_to_string(p).ok().and_then(|s| jsn::parse(&s).ok()) {
            gen::set_dict(gen::Dict::from_j(&j));
        }
    }
    unsafe {
        atexit(at_exit);
    }
    State {
        prop: std::env::var("BCFUZZ_PROP").expect("harness: BCFUZZ_PROP"),
        out: std::env::var("BCFUZZ_OUT").expect("harness: BCFUZZ_OUT"),
        obs: Obs {
            fuzz: true,
            known: std::env::var("BCFUZZ_KNOWN").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default(),
            ..Obs::default()
        },
        tried: 0,
        distinct: HashSet::new(),
    }
}

#[allow(static_mut_refs)]
#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, len: usize) -> i32 {
    let data = if len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, len) } };
    {
        // One thread only.
        let s = unsafe { STATE.get_or_insert_with(init) };
        let case = gen::case(&s.prop, &mut Src::Bytes(data, 0));
        s.tried += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check::check(&s.prop, &case, &mut s.obs)));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let m = check::last_panic();
                if m.contains("(src/") || m.contains("(sut/") || m.contains("harness") {
                    eprintln!("harness: {} on {}", m, case.to_j().write());
                    unsafe { _exit(12) }
                }
                Err(format!("the call panicked: {}", m))
            }
        };
        match r {
            Ok(true) => {
                s.obs.evals += 1;
                if s.distinct.len() < check::DISTINCT_CAP {
                    s.distinct.insert(case.key());
                }
                let n = s.obs.evals;
                if n.is_power_of_two() && n >= 1 << 12 && s.obs.samples.len() < 6 {
                    let j = case.to_j();
                    if j.write().len() < 600 {
                        s.obs.samples.push(j);
                    }
                }
            }
            Ok(false) => s.obs.skipped += 1,
            Err(m) => {
                report(s, J::obj(vec![("case", case.to_j()), ("message", J::s(m))]));
                unsafe { _exit(10) }
            }
        }
    }
    0
}
