//! Arguments that a fingerprint, a sample or a hash of them may confuse, one right after another, or
//! at the same time in many threads.

use crate::case::{mods_str, Case, Out};
use crate::check::{call, short, Obs, Verdict};
use crate::gen;
use crate::hist::{blame, encoded_right, generate, generated_right, res_hash};
use crate::rng::{hash, Src};
use crate::spec::{self, Admit};
use bcsut::{Kind, Obj, Sym};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;

/// Another sequence that agrees with this one in some summary of it: the same multiset, sum, exclusive
/// or, first and last elements, sampled elements, weighted sum, or contents modulo a length.
/// Elements before `from` stay.
fn variant<T: Clone + PartialEq>(v: &[T], alphabet: &[T], from: usize, src: &mut Src) -> Vec<T> {
    let mut d = v.to_vec();
    let n = d.len();
    if n < from + 2 {
        if let Some(l) = d.last_mut() {
            *l = src.pick(alphabet).clone();
        }
        return d;
    }
    let t = &mut d[from..];
    let n = n - from;
    let rank = |x: &T| alphabet.iter().position(|a| a == x);
    match src.below(16) {
        0 => t.reverse(),
        1 => {
            let k = *src.pick(&[1, 2, 3, 4, 8, 16, 32, 64, 128, n / 2]);
            t.rotate_left(k % n);
        }
        // Blocks change places.
        2..=4 => {
            let b = *src.pick(&[1, 1, 2, 3, 4, 8, 16, 32, 64, 128, n / 2, n / 3]);
            if b > 0 && n / b > 1 {
                let (i, j) = (src.below(n / b), src.below(n / b));
                for k in 0..b {
                    t.swap(i * b + k, j * b + k);
                }
            }
        }
        // One element between the ends.
        5 => t[n / 2] = src.pick(alphabet).clone(),
        6 => t[src.below(n)] = src.pick(alphabet).clone(),
        // The ends only.
        7 => t[0] = src.pick(alphabet).clone(),
        8 => t[n - 1] = src.pick(alphabet).clone(),
        // All but a sample.
        9 => {
            let k = *src.pick(&[2, 3, 4, 8, 16, 32, 64]);
            let o = src.below(k);
            for (i, x) in t.iter_mut().enumerate() {
                if i % k != o && i != 0 && i + 1 != n {
                    *x = src.pick(alphabet).clone();
                }
            }
        }
        // Only before, or only after, so many.
        10 => {
            let k = *src.pick(&[1, 2, 4, 8, 12, 16, 20, 32, 64, 128]);
            let back = src.chance(1, 2);
            for (i, x) in t.iter_mut().enumerate() {
                if if back { i + k < n } else { i >= k } && src.chance(1, 3) {
                    *x = src.pick(alphabet).clone();
                }
            }
        }
        // The same weighted sum: one up, another down by the weight's ratio.
        11 | 12 => {
            let (i, j) = (src.below(n), src.below(n));
            let m = *src.pick(&[1usize, 1, 2, 3, 7, 9, 10, 11, 16, 31, 32, 33, 37]);
            if i != j {
                if let (Some(a), Some(b)) = (rank(&t[i]), rank(&t[j])) {
                    if let (Some(x), true) = (alphabet.get(a + 1), b >= m) {
                        t[i] = x.clone();
                        t[j] = alphabet[b - m].clone();
                    }
                }
            }
        }
        // Neighbours, likewise (a polynomial of base m).
        13 => {
            let i = src.below(n - 1);
            let m = *src.pick(&[2usize, 3, 7, 8, 10, 11, 16, 31, 33, 37, 43, 47]);
            if let (Some(a), Some(b)) = (rank(&t[i]), rank(&t[i + 1])) {
                if let (Some(x), true) = (alphabet.get(a + 1), b >= m) {
                    t[i] = x.clone();
                    t[i + 1] = alphabet[b - m].clone();
                }
            }
        }
        // A block twice, which an exclusive or does not see; or as many more as a byte counts.
        14 => {
            let b = *src.pick(&[1usize, 2, 4, 8, 16, 32, 64]);
            let b = b.min(n);
            let block = t[..b].to_vec();
            d.extend(block.iter().cloned());
            d.extend(block);
        }
        _ => {
            let x = t[src.below(n)].clone();
            let k = *src.pick(&[1usize, 2, 16, 256]);
            let at = from + src.below(n);
            let tail = d.split_off(at);
            d.extend(std::iter::repeat(x).take(k));
            d.extend(tail);
        }
    }
    d
}

#[derive(Clone)]
pub enum Item {
    Sym(Sym, String),
    Gen(Out, Vec<u8>),
}

impl Item {
    fn perform(&self) -> Result<Vec<u8>, Kind> {
        match self {
            Item::Sym(s, d) => bcsut::construct(*s, d).map(|o| o.encode()),
            Item::Gen(o, m) => generate(o, m),
        }
    }
    fn case(&self) -> Case {
        match self {
            Item::Sym(sym, d) => Case::Sym { sym: *sym, data: d.clone() },
            Item::Gen(out, m) => Case::Gen { out: out.clone(), mods: m.clone() },
        }
    }
    fn right(&self, r: &Result<Vec<u8>, Kind>, obs: &mut Obs) -> Result<(), String> {
        match (self, r) {
            (Item::Sym(s, d), Ok(m)) => encoded_right(*s, d, m, obs),
            (Item::Sym(s, d), Err(k)) => match spec::admit(*s, d) {
                Admit::Reject(ks) if ks.contains(k) => Ok(()),
                a => Err(format!("{:?}, the model says {:?}", k, a)),
            },
            (Item::Gen(o, m), r) => generated_right(o, m, r),
        }
    }
    fn text(&self) -> String {
        match self {
            Item::Sym(s, d) => format!("{:?} {}", s, short(d)),
            Item::Gen(o, m) => format!("{} of {}", o.to_j().write(), short(&mods_str(m))),
        }
    }
    /// A twin.
    pub fn twin(&self, src: &mut Src) -> Item {
        match self {
            Item::Sym(s, d) => {
                let c: Vec<char> = d.chars().collect();
                let a: Vec<char> = if *s == Sym::Code128 { (' '..='_').collect() } else { spec::alphabet(*s).chars().collect() };
                let mut v = variant(&c, &a, (*s == Sym::Code128) as usize, src);
                if let (Some(p), true) = (spec::payload_len(*s), c.len() < 300) {
                    v.resize(p, '0');
                    let mut e: String = v.iter().collect();
                    if *s == Sym::Bookland {
                        e.replace_range(..3, &d[..3]);
                    }
                    return Item::Sym(*s, e);
                }
                Item::Sym(*s, v.into_iter().collect())
            }
            Item::Gen(o, m) if src.chance(1, 5) => Item::Gen(gen::tweak(src, o), m.clone()),
            Item::Gen(o, m) => Item::Gen(o.clone(), variant(m, &[0, 1], 0, src)),
        }
    }
}

/// A call of a kind: a symbology or a generator.
pub fn item(which: usize, src: &mut Src, images: bool) -> Item {
    if let Some(&sym) = Sym::ALL.get(which) {
        let n = *src.pick(&[6, 12, 30, 70, 140, 250]);
        // As long as that, in one of two cases.
        let mut d = gen::valid(src, sym, n);
        if src.chance(1, 2) && spec::payload_len(sym).is_none() && sym != Sym::Supp {
            for _ in 0..20 {
                let more = gen::valid(src, sym, n);
                let more: String = if sym == Sym::Code128 { more.chars().filter(char::is_ascii).collect() } else { more };
                if d.chars().count() + more.chars().count() <= n {
                    d.push_str(&more);
                }
            }
        }
        if let Some(p) = spec::payload_len(sym) {
            d.truncate(p);
        }
        return Item::Sym(sym, d);
    }
    let n = *src.pick(&[5, 24, 60, 95, 130, 260, 520]);
    let n = src.range(n / 2, n);
    let mut m: Vec<u8> = match src.below(4) {
        0 => (0..n).map(|i| ((i / 64) % 2) as u8).collect(),
        1 => spec::render(Sym::Code39, &"CODE39".repeat(n / 90 + 1)),
        _ => (0..n).map(|_| src.below(2) as u8).collect(),
    };
    m.truncate(600);
    let small = |src: &mut Src| (src.range(1, 3), src.range(1, 3));
    let (h, x) = small(src);
    let out = match which - Sym::ALL.len() {
        0 => Out::Ascii { height: h, xdim: x },
        1 => Out::Json { height: h, xdim: x },
        2 => {
            let mut c = gen::svg_cfg_printable(src);
            if src.chance(1, 2) {
                c.height = h as u32;
                c.xdim = x as u32;
            }
            Out::Svg(c)
        }
        _ => {
            let c = gen::img_cfg(src, 60, 600);
            m.truncate(100);
            if !images {
                return item(Sym::ALL.len() + 2, src, images);
            }
            Out::Img(c)
        }
    };
    Item::Gen(out, m)
}

pub const KINDS: usize = Sym::ALL.len() + 4;

/// Twins one right after another.
pub fn check(seed: u64, n: u64, obs: &mut Obs) -> Verdict {
    let mut src = Src::seeded(seed);
    let images = cfg!(feature = "image") && !cfg!(miri);
    for i in 0..n {
        crate::hist::PROGRESS.fetch_add(1, Ordering::Relaxed);
        let which = (i as usize) % KINDS;
        let a = item(which, &mut src, images);
        let mut b = vec![a.twin(&mut src), a.twin(&mut src)];
        if src.chance(1, 3) {
            let c = b[0].twin(&mut src);
            b.push(c);
        }
        let mut items = vec![a];
        items.append(&mut b);
        let mut first: Vec<Option<u64>> = vec![None; items.len()];
        for &k in &[0usize, 1, 0, 2, 1, 3, 0, 2] {
            let Some(it) = items.get(k) else {
                continue;
            };
            let r = call("the call", || it.perform());
            let h = r.as_ref().map_or(0, res_hash);
            let say = |e: String| format!("twins seed {} number {}: {} after its like: {}", seed, i, it.text(), e);
            match first[k] {
                Some(f) if f != h => return Err(say("another result than before".into())),
                Some(_) => {}
                None => {
                    first[k] = Some(h);
                    let right = r.and_then(|r| it.right(&r, obs));
                    blame(&it.case(), h, right, obs).map_err(say)?;
                }
            }
            obs.count("calls right after a call with like arguments", 1);
        }
        if !obs.quiet {
            obs.distinct.insert(hash(&[items[0].case().to_j().write().as_bytes()]));
        }
        obs.dim("kinds of twins", which as u64);
    }
    Ok(true)
}

struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// A few like calls, of one kind, over and over in many threads.
pub fn hot(seed: u64, threads: u32, millis: u64, obs: &mut Obs) -> Verdict {
    let images = cfg!(feature = "image") && !cfg!(miri);
    let mut src = Src::seeded(seed);
    for which in 0..KINDS * 2 {
        let kind = which % KINDS;
        let mut items = vec![item(kind, &mut src, images)];
        while items.len() < 4 {
            let k = src.below(items.len());
            let t = if src.chance(1, 3) { item(kind, &mut src, images) } else { items[k].twin(&mut src) };
            items.push(t);
        }
        // Half of the time the values are shared.
        let objs: Vec<Option<Obj>> = items
            .iter()
            .map(|it| match it {
                Item::Sym(s, d) if which >= KINDS => std::panic::catch_unwind(|| bcsut::construct(*s, d).ok()).ok().flatten(),
                _ => None,
            })
            .collect();
        let sh = Share((items, objs));
        let (start, stop) = (Barrier::new(threads as usize + 1), AtomicBool::new(false));
        // Per thread: what each item gave at first, whether it ever gave anything else, and how many calls were made.
        let all: Vec<(Vec<Option<u64>>, Option<usize>, u64)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads as usize)
                .map(|t| {
                    let (sh, start, stop) = (&sh, &start, &stop);
                    sc.spawn(move || {
                        let (items, objs) = sh.get();
                        let perform = |k: usize| {
                            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &objs[k] {
                                Some(o) => Ok(o.encode()),
                                None => items[k].perform(),
                            }))
                        };
                        let mut first: Vec<Option<std::thread::Result<Result<Vec<u8>, Kind>>>> = (0..items.len()).map(|_| None).collect();
                        let mut other = None;
                        let mut n = 0u64;
                        start.wait();
                        // Each thread in a rhythm of its own.
                        'all: loop {
                            for k in 0..items.len() {
                                for _ in 0..=(t + k * 3) % 4 {
                                    if stop.load(Ordering::Relaxed) {
                                        break 'all;
                                    }
                                    let k = (k * (t % 3 + 1) + t) % items.len();
                                    let r = perform(k);
                                    n += 1;
                                    match (&first[k], &r) {
                                        (None, _) => first[k] = Some(r),
                                        (Some(Ok(a)), Ok(b)) if a == b => {}
                                        (Some(Err(_)), Err(_)) => {}
                                        _ => other = other.or(Some(k)),
                                    }
                                }
                            }
                        }
                        let h = first.iter().map(|f| f.as_ref().map(|f| f.as_ref().map_or(0, res_hash))).collect();
                        (h, other, n)
                    })
                })
                .collect();
            start.wait();
            std::thread::sleep(std::time::Duration::from_millis(millis));
            stop.store(true, Ordering::Relaxed);
            hs.into_iter().map(|h| h.join().expect("harness: worker panicked")).collect()
        });
        let (items, objs) = sh.get();
        crate::threads::PROGRESS.fetch_add(1, Ordering::Relaxed);
        for (k, it) in items.iter().enumerate() {
            let say = |e: String| format!("hot seed {} threads {} kind {}: {}: {}", seed, threads, which, it.text(), e);
            // Alone, afterwards.
            let r = call("the call", || match &objs[k] {
                Some(o) => Ok(o.encode()),
                None => it.perform(),
            });
            let h = r.as_ref().map_or(0, res_hash);
            if all.iter().any(|a| a.1 == Some(k)) {
                return Err(say("one thread got different results".into()));
            }
            if all.iter().any(|a| a.0[k].is_some_and(|x| x != h)) {
                return Err(say("a thread's result is unlike the sequential one".into()));
            }
            let right = r.and_then(|r| it.right(&r, obs));
            blame(&it.case(), h, right, obs).map_err(say)?;
            if !obs.quiet {
                obs.distinct.insert(hash(&[&[threads as u8, which as u8], it.case().to_j().write().as_bytes()]));
            }
        }
        obs.count("concurrent calls of one kind", all.iter().map(|a| a.2).sum());
        obs.dim("kinds called in many threads at once", (threads as u64) << 8 | which as u64);
    }
    Ok(true)
}
