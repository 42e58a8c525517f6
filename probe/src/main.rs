//!   bcprobe run           < lines    one transcript
//!   bcprobe threads N     < lines    N threads make all the calls at once, each from another start

use barcoders::error::Error;
use bcprobe::{call, construct, unhex, Value};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guarded(line: &str, shared: Option<&Result<Value, Error>>) -> String {
    match catch_unwind(AssertUnwindSafe(|| call(line, shared))) {
        Ok(Some(s)) => s,
        Ok(None) => "absent".into(),
        Err(_) => "panic".into(),
    }
}

struct Share<T>(T);
// Whether the values may be shared is an observation elsewhere.
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let lines: Vec<&str> = input.lines().collect();
    if a.get(1).map(|s| s.as_str()) != Some("threads") {
        for l in &lines {
            println!("{}", guarded(l, None));
        }
        return;
    }
    let n: usize = a[2].parse().unwrap();
    // Every other symbology value is shared by the threads.
    let shared: Share<Vec<Option<Result<Value, Error>>>> = Share(
        lines
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let f: Vec<&str> = l.split(' ').collect();
                if f[0] != "S" || i % 2 == 1 {
                    return None;
                }
                catch_unwind(|| construct(f[1], std::str::from_utf8(&unhex(f[2])).unwrap())).ok()
            })
            .collect(),
    );
    let start = std::sync::Barrier::new(n);
    let all: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (lines, shared, start) = (&lines, &shared, &start);
                sc.spawn(move || {
                    let shared = shared.get();
                    start.wait();
                    let mut r = vec![String::new(); lines.len()];
                    for k in 0..lines.len() {
                        // Pairs of threads start at the same call.
                        let i = (k + t / 2 * 3) % lines.len();
                        r[i] = guarded(lines[i], shared[i].as_ref());
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for i in 0..lines.len() {
        let same = all.iter().all(|r| r[i] == all[0][i]);
        println!("{}{}", if same { "" } else { "DIFFERENT " }, all[0][i]);
    }
}
