//! Data strings of gigabytes that take megabytes: one file mapped over and over.

/// Characters.
pub fn repeated(len: u64, ch: u8) -> Option<&'static str> {
    if !ch.is_ascii() {
        return None;
    }
    mapped(len, ch).map(|b| unsafe { std::str::from_utf8_unchecked(b) })
}

const BARS: u8 = 255;

/// Modules.
pub fn modules(len: u64, bars: bool) -> Option<&'static [u8]> {
    mapped(len, if bars { BARS } else { 0 })
}

/// What a process of its own with little memory gets for the case: the size of its text.
pub fn child(c: &crate::case::Case) -> Result<Option<u128>, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let o = std::process::Command::new(exe)
        .args(["wide", "--json", &c.to_j().write()])
        .output()
        .map_err(|e| format!("harness: cannot start a process: {}", e))?;
    // Ended for want of memory, most likely.
    Ok(if o.status.success() { String::from_utf8_lossy(&o.stdout).trim().parse().ok() } else { None })
}

/// That process.
pub fn answer(c: &crate::case::Case) -> Option<usize> {
    use crate::case::{Case, Out};
    let Case::Wide { out, len, bars } = c else { return None };
    let mods = modules(*len, *bars)?;
    match out {
        Out::Ascii { height, xdim } => bcsut::ascii(*height, *xdim, mods).ok().map(|s| s.len()),
        Out::Json { height, xdim } => bcsut::json(*height, *xdim, mods).ok().map(|s| s.len()),
        _ => None,
    }
}

#[cfg(all(target_os = "linux", not(miri)))]
fn mapped(len: u64, ch: u8) -> Option<&'static [u8]> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    extern "C" {
        fn memfd_create(name: *const u8, flags: u32) -> i32;
        fn ftruncate(fd: i32, len: i64) -> i32;
        fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn close(fd: i32) -> i32;
    }
    const CHUNK: usize = 1 << 24;
    static MAPS: Mutex<Option<HashMap<u8, (usize, u64)>>> = Mutex::new(None);
    let mut maps = MAPS.lock().unwrap_or_else(|e| e.into_inner());
    let maps = maps.get_or_insert_with(HashMap::new);
    if !maps.get(&ch).is_some_and(|m| m.1 >= len) {
        let total = (len as usize).div_ceil(CHUNK) * CHUNK;
        unsafe {
            let fd = memfd_create(b"rep\0".as_ptr(), 0);
            if fd < 0 || ftruncate(fd, CHUNK as i64) != 0 {
                return None;
            }
            // Reserve, then lay the chunk over the whole range.
            let base = mmap(std::ptr::null_mut(), total, 0, 0x22 | 0x4000, -1, 0);
            if base as isize == -1 {
                close(fd);
                return None;
            }
            for i in 0..total / CHUNK {
                let p = mmap(base.add(i * CHUNK), CHUNK, 3, 0x11, fd, 0);
                if p as isize == -1 {
                    close(fd);
                    return None;
                }
            }
            if ch == BARS {
                *base.add(5) = 1;
                *base.add(CHUNK - 1) = 1;
            } else {
                std::ptr::write_bytes(base, ch, CHUNK);
            }
            close(fd);
            maps.insert(ch, (base as usize, total as u64));
        }
    }
    let base = maps[&ch].0;
    Some(unsafe { std::slice::from_raw_parts(base as *const u8, len as usize) })
}

#[cfg(not(all(target_os = "linux", not(miri))))]
fn mapped(_: u64, _: u8) -> Option<&'static [u8]> {
    None
}
