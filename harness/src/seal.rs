//! A thread that may compute and use memory but touch nothing else: a system call filter turns every
//! system call with an effect outside the process (or on its global state) into an observation.

use crate::case::{Case, Out};
use crate::check::{self, Obs, Verdict};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

/// Panics that reached the harness' hook.
pub static HOOKED: AtomicU64 = AtomicU64::new(0);

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod filter {
    use super::*;

    /// The first trapped call since the last look, or -1.
    pub static TRAPPED: AtomicI64 = AtomicI64::new(-1);
    pub static COUNT: AtomicU64 = AtomicU64::new(0);
    static ARG: AtomicU64 = AtomicU64::new(0);
    static TEXT: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];

    const CALLS: &[(u32, &str)] = &[
        (0, "read"),
        (1, "write"),
        (2, "open"),
        (3, "close"),
        (13, "rt_sigaction"),
        (17, "pread64"),
        (18, "pwrite64"),
        (19, "readv"),
        (20, "writev"),
        (22, "pipe"),
        (29, "shmget"),
        (32, "dup"),
        (33, "dup2"),
        (37, "alarm"),
        (38, "setitimer"),
        (40, "sendfile"),
        (41, "socket"),
        (42, "connect"),
        (44, "sendto"),
        (45, "recvfrom"),
        (49, "bind"),
        (53, "socketpair"),
        (57, "fork"),
        (58, "vfork"),
        (59, "execve"),
        (62, "kill"),
        (76, "truncate"),
        (77, "ftruncate"),
        (80, "chdir"),
        (81, "fchdir"),
        (82, "rename"),
        (83, "mkdir"),
        (84, "rmdir"),
        (85, "creat"),
        (86, "link"),
        (87, "unlink"),
        (88, "symlink"),
        (90, "chmod"),
        (92, "chown"),
        (95, "umask"),
        (132, "utime"),
        (133, "mknod"),
        (141, "setpriority"),
        (160, "setrlimit"),
        (161, "chroot"),
        (188, "setxattr"),
        (203, "sched_setaffinity"),
        (213, "epoll_create"),
        (222, "timer_create"),
        (253, "inotify_init"),
        (257, "openat"),
        (258, "mkdirat"),
        (259, "mknodat"),
        (263, "unlinkat"),
        (264, "renameat"),
        (265, "linkat"),
        (266, "symlinkat"),
        (268, "fchmodat"),
        (280, "utimensat"),
        (285, "fallocate"),
        (292, "dup3"),
        (293, "pipe2"),
        (295, "preadv"),
        (296, "pwritev"),
        (316, "renameat2"),
        (319, "memfd_create"),
        (322, "execveat"),
        (326, "copy_file_range"),
        (425, "io_uring_setup"),
        (437, "openat2"),
    ];
    const CLONE: u32 = 56;
    const CLONE3: u32 = 435;

    pub fn name(nr: i64) -> &'static str {
        if nr == CLONE as i64 {
            return "clone (a process)";
        }
        CALLS.iter().find(|c| c.0 as i64 == nr).map_or("?", |c| c.1)
    }

    extern "C" {
        fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        fn sigaction(s: i32, new: *const u8, old: *mut u8) -> i32;
    }

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    #[repr(C)]
    struct Inst {
        code: u16,
        jt: u8,
        jf: u8,
        k: u32,
    }
    #[repr(C)]
    struct Prog {
        len: u16,
        filter: *const Inst,
    }

    /// Notes the call and answers it as if it had happened (writing) or failed (opening).
    unsafe extern "C" fn trap(_: i32, info: *const u8, ctx: *mut u8) {
        let nr = *(info.add(24) as *const i32) as i64;
        let regs = ctx.add(40) as *mut i64;
        let reg = |i: usize| *regs.add(i);
        // rdi, rsi, rdx are registers 8, 9 and 12; rax is 13.
        let (a0, a1, a2) = (reg(8), reg(9), reg(12));
        let text = match nr {
            1 => a1,
            2 | 83 | 84 | 85 | 87 | 59 | 80 | 82 => a0,
            257 | 437 | 263 | 258 => a1,
            _ => 0,
        } as *const u8;
        let most = if nr == 1 { (a2 as usize).min(120) } else { 120 };
        let mut b = [0u8; 128];
        if !text.is_null() {
            for i in 0..most {
                let c = *text.add(i);
                if c == 0 {
                    break;
                }
                b[i] = c;
            }
        }
        // What the processors are like is read by allocators and thread pools.
        let opens = matches!(nr, 2 | 257 | 437);
        let own = opens && (b.starts_with(b"/proc/") || b.starts_with(b"/sys/") || b.starts_with(b"/dev/urandom"));
        if !own {
            COUNT.fetch_add(1, Ordering::Relaxed);
            if TRAPPED.compare_exchange(-1, nr, Ordering::AcqRel, Ordering::Acquire).is_ok() {
                ARG.store(a0 as u64, Ordering::Relaxed);
                for i in 0..16 {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&b[i * 8..i * 8 + 8]);
                    TEXT[i].store(u64::from_le_bytes(w), Ordering::Relaxed);
                }
            }
        }
        *regs.add(13) = match nr {
            1 | 18 => a2,
            20 => (0..a2).map(|i| *((a1 as *const i64).add(i as usize * 2 + 1))).sum(),
            0 | 17 | 19 => 0,
            _ if opens => -2,
            _ => -1,
        };
    }

    /// What was trapped since the last look.
    pub fn taken() -> Option<String> {
        let nr = TRAPPED.load(Ordering::Acquire);
        if nr < 0 {
            return None;
        }
        let mut b = vec![];
        for t in &TEXT {
            b.extend(t.load(Ordering::Relaxed).to_le_bytes());
        }
        let end = b.iter().position(|&c| c == 0).unwrap_or(b.len());
        let s = format!("{}({}, {:?})", name(nr), ARG.load(Ordering::Relaxed) as i64, String::from_utf8_lossy(&b[..end]));
        TRAPPED.store(-1, Ordering::Release);
        Some(s)
    }

    /// Seals the calling thread and the threads it starts. False if the system does not allow it.
    pub fn seal() -> bool {
        const SIGSYS: i32 = 31;
        let a = Action { handler: trap as usize, mask: [0; 16], flags: 4 | 0x4000_0000 | 0x0800_0000, restorer: 0 };
        const LD: u16 = 0x20;
        const JEQ: u16 = 0x15;
        const JSET: u16 = 0x45;
        const RET: u16 = 0x06;
        const ALLOW: u32 = 0x7fff_0000;
        const TRAP: u32 = 0x0003_0000;
        const ENOSYS: u32 = 0x0005_0000 | 38;
        let i = |code, jt, jf, k| Inst { code, jt, jf, k };
        // Another architecture's calls are not for this thread.
        let mut p = vec![i(LD, 0, 0, 4), i(JEQ, 1, 0, 0xC000_003E), i(RET, 0, 0, TRAP), i(LD, 0, 0, 0)];
        for c in CALLS {
            p.push(i(JEQ, 0, 1, c.0));
            p.push(i(RET, 0, 0, TRAP));
        }
        p.push(i(JEQ, 0, 1, CLONE3));
        p.push(i(RET, 0, 0, ENOSYS));
        p.push(i(JEQ, 0, 3, CLONE));
        p.push(i(LD, 0, 0, 16));
        // A thread, or a process?
        p.push(i(JSET, 1, 0, 0x0001_0000));
        p.push(i(RET, 0, 0, TRAP));
        p.push(i(RET, 0, 0, ALLOW));
        let prog = Prog { len: p.len() as u16, filter: p.as_ptr() };
        unsafe {
            sigaction(SIGSYS, &a as *const Action as *const u8, std::ptr::null_mut()) == 0
                && prctl(38, 1, 0, 0, 0) == 0
                && prctl(22, 2, &prog as *const Prog as u64, 0, 0) == 0
        }
    }
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
mod filter {
    pub fn seal() -> bool {
        false
    }
    pub fn taken() -> Option<String> {
        None
    }
    pub static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
}

/// The calls of a case. Whether the results are right is not asked here.
fn perform(case: &Case) {
    let _ = std::panic::catch_unwind(|| match case {
        Case::Sym { sym, data } => match bcsut::construct(*sym, data) {
            Ok(o) => {
                o.encode();
                if data.len() < 300 {
                    o.debug();
                    let _ = bcsut::construct_as(*sym, data, data.len() % 20).map(|o| o.encode());
                }
            }
            Err(k) => drop(format!("{:?}", k)),
        },
        Case::Gen { out, mods } => {
            let _ = crate::hist::generate(out, mods);
            if let (Out::Svg(c), true) = (out, mods.len() < 4096) {
                let _ = bcsut::svg_built(c, mods);
            }
        }
        _ => {
            let mut obs = Obs { quiet: true, ..Obs::default() };
            let _ = check::check("", case, &mut obs);
        }
    });
}

type Vars = std::collections::BTreeMap<std::ffi::OsString, std::ffi::OsString>;

fn environment() -> Vars {
    std::env::vars_os().collect()
}

/// Puts back the environment as it was.
fn restore(was: &Vars) {
    for k in environment().into_keys().filter(|k| !was.contains_key(k)) {
        std::env::remove_var(k);
    }
    for (k, v) in was {
        std::env::set_var(k, v);
    }
}

fn locale(to: Option<&str>) -> String {
    #[cfg(all(target_os = "linux", not(miri)))]
    {
        extern "C" {
            fn setlocale(c: i32, l: *const std::ffi::c_char) -> *const std::ffi::c_char;
        }
        let to = to.map(|t| std::ffi::CString::new(t).unwrap_or_default());
        let p = unsafe { setlocale(6, to.as_ref().map_or(std::ptr::null(), |t| t.as_ptr())) };
        if !p.is_null() {
            return unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().to_string();
        }
    }
    String::new()
}

struct Worker {
    ask: std::sync::mpsc::Sender<usize>,
    answer: std::sync::mpsc::Receiver<Option<String>>,
    sealed: bool,
    threads: usize,
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

fn start() -> Worker {
    let (ask, asked) = std::sync::mpsc::channel::<usize>();
    let (tell, answer) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        use std::io::Write;
        // What is done once in a thread's life: an arena of memory, unwinding.
        drop(vec![1u8; 100_000]);
        let _ = std::panic::catch_unwind(|| panic!("once"));
        let _ = std::io::stdout().flush();
        let (env, loc) = (environment(), locale(None));
        let sealed = filter::seal();
        let _ = filter::taken();
        let _ = tell.send(sealed.then(String::new));
        for c in asked {
            let case = unsafe { &*(c as *const Case) };
            perform(case);
            // Printed, perhaps, but not yet written.
            let _ = std::io::stdout().flush();
            let mut what = filter::taken();
            let n = HOOKED.load(Ordering::Relaxed);
            let _ = std::panic::catch_unwind(|| panic!("whose hook?"));
            if HOOKED.load(Ordering::Relaxed) == n {
                check::quiet_panics();
                what.get_or_insert("the panic hook was replaced".into());
            }
            if environment() != env {
                restore(&env);
                what.get_or_insert("the environment was changed".into());
            }
            if locale(None) != loc {
                locale(Some(&loc));
                what.get_or_insert("the locale was changed".into());
            }
            let _ = filter::taken();
            if tell.send(what).is_err() {
                break;
            }
        }
    });
    let sealed = answer.recv().ok().flatten().is_some();
    Worker { ask, answer, sealed, threads: threads() }
}

pub fn check(case: &Case, obs: &mut Obs) -> Verdict {
    static WORKER: std::sync::Mutex<Option<Worker>> = std::sync::Mutex::new(None);
    let mut w = WORKER.lock().unwrap_or_else(|e| e.into_inner());
    let w = w.get_or_insert_with(start);
    w.ask.send(case as *const Case as usize).map_err(|_| "harness: the sealed thread ended".to_string())?;
    let what = match w.answer.recv() {
        Ok(a) => a,
        Err(_) => return Err("harness: the sealed thread ended".into()),
    };
    let about = || {
        let j = case.to_j().write();
        check::short(&j)
    };
    if let Some(what) = what {
        return Err(format!("{}: an effect besides the result: {}", about(), what));
    }
    if !obs.fuzz {
        let mut n = threads();
        for _ in 0..60 {
            if n <= w.threads {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
            n = threads();
        }
        if n > w.threads {
            let k = n - w.threads;
            w.threads = n;
            return Err(format!("{}: an effect besides the result: {} threads left running", about(), k));
        }
    }
    obs.count(if w.sealed { "cases in a sealed thread" } else { "cases in a thread that could not be sealed" }, 1);
    Ok(true)
}
