//! The result a call gives on its own: computed by a fresh process that makes this one call.
//! It tells a call that is wrong because of what went before from one that is always wrong.

use crate::case::Case;
use crate::hist::{generate, res_hash};
use bcsut::{Kind, Sym};

/// The hash of the result of the call; 0 if it panics.
pub fn result(case: &Case) -> Option<u64> {
    let r = std::panic::catch_unwind(|| -> Option<Result<Vec<u8>, Kind>> {
        Some(match case {
            Case::Sym { sym, data } => bcsut::construct(*sym, data).map(|o| o.encode()),
            Case::Flags { data, chk, ops } => {
                let mut o = match bcsut::construct(if *chk { Sym::Code39Chk } else { Sym::Code39 }, data) {
                    Ok(o) => o,
                    Err(k) => return Some(Err(k)),
                };
                let mut last = vec![];
                for op in ops {
                    match op {
                        0 | 1 => o.set_checksum(*op == 1),
                        _ => last = o.encode(),
                    }
                }
                Ok(last)
            }
            Case::Gen { out, mods } => generate(out, mods),
            _ => return None,
        })
    });
    match r {
        Ok(Some(r)) => Some(res_hash(&r)),
        Ok(None) => None,
        Err(_) => Some(0),
    }
}

#[cfg(miri)]
pub fn in_child(_: &Case) -> Option<u64> {
    None
}

/// None if it cannot be known (too many asked, or the child did not answer).
#[cfg(not(miri))]
pub fn in_child(case: &Case) -> Option<u64> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::io::Write;
    use std::process::{Command, Stdio};
    thread_local!(static MEMO: RefCell<HashMap<u64, Option<u64>>> = RefCell::new(HashMap::new()));
    let key = case.key();
    if let Some(r) = MEMO.with(|m| m.borrow().get(&key).copied()) {
        return r;
    }
    if MEMO.with(|m| m.borrow().len()) >= 400 {
        return None;
    }
    let ask = || -> Option<u64> {
        let mut c = Command::new(std::env::current_exe().ok()?)
            .arg("fresh")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        c.stdin.take()?.write_all(case.to_j().write().as_bytes()).ok()?;
        let o = c.wait_with_output().ok()?;
        String::from_utf8(o.stdout).ok()?.trim().parse().ok()
    };
    let r = ask();
    MEMO.with(|m| m.borrow_mut().insert(key, r));
    r
}
