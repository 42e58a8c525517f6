//! The probe as a bare 32-bit program: no libc, no std, so that it runs at native speed although
//! only 64-bit libraries are installed. A panic ends it with code 101 at the line it happened on.
#![no_std]
#![no_main]
#![allow(static_mut_refs)]

extern crate alloc;

use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::{asm, global_asm};

unsafe fn syscall(n: u32, a: u32, b: u32, c: u32) -> i32 {
    let r;
    asm!("int 0x80", inlateout("eax") n => r, in("ebx") a, in("ecx") b, in("edx") c, options(nostack));
    r
}

fn exit(code: u32) -> ! {
    unsafe {
        syscall(1, code, 0, 0);
    }
    loop {}
}

fn write(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { syscall(4, 1, b.as_ptr() as u32, b.len() as u32) };
        if n <= 0 {
            exit(3);
        }
        b = &b[n as usize..];
    }
}

/// Hands out the program break in powers of two; freed blocks wait in lists by size.
struct Blocks;
static mut NEXT: usize = 0;
static mut END: usize = 0;
static mut FREE: [usize; 32] = [0; 32];

fn class(l: Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
}

unsafe impl GlobalAlloc for Blocks {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 || l.align() > 4096 {
            return core::ptr::null_mut();
        }
        let c = class(l);
        if FREE[c] != 0 {
            let p = FREE[c];
            FREE[c] = *(p as *const usize);
            return p as *mut u8;
        }
        if NEXT == 0 {
            NEXT = (syscall(45, 0, 0, 0) as usize + 4095) & !4095;
            END = NEXT;
        }
        let size = 1usize << c;
        let p = (NEXT + size.min(4096) - 1) & !(size.min(4096) - 1);
        let Some(e) = p.checked_add(size) else {
            return core::ptr::null_mut();
        };
        if e > END {
            let want = (e + (1 << 20)) & !4095;
            if (syscall(45, want as u32, 0, 0) as usize) < want {
                return core::ptr::null_mut();
            }
            END = want;
        }
        NEXT = e;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(l);
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}

#[global_allocator]
static ALLOCATOR: Blocks = Blocks;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    write(b"panic\n");
    exit(101)
}

global_asm!(".globl _start", "_start:", "and esp, -16", "call {go}", go = sym go);

extern "C" fn go() -> ! {
    let mut input: Vec<u8> = Vec::with_capacity(96 << 20);
    loop {
        if input.capacity() - input.len() < 65536 {
            exit(4);
        }
        let at = input.as_ptr() as u32 + input.len() as u32;
        let n = unsafe { syscall(3, 0, at, 65536) };
        if n <= 0 {
            break;
        }
        unsafe { input.set_len(input.len() + n as usize) };
    }
    let text = core::str::from_utf8(&input).unwrap();
    for line in text.lines() {
        match bcprobe::call(line, None) {
            Some(s) => write(s.as_bytes()),
            None => write(b"absent"),
        }
        write(b"\n");
    }
    exit(0)
}
