//! Deterministic randomness: every execution runs on a fresh thread, and every
//! source of operating-system randomness used by the code under test (std's
//! hash-map keys, the getrandom crate, ring) is interposed with a generator
//! seeded per execution.
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x9e37_79b9_7f4a_7c15) };
}

/// Reset the generator of this thread.
pub fn reseed(seed: u64) {
    STATE.with(|s| s.set(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ 0x9e37_79b9_7f4a_7c15));
}

pub fn next() -> u64 {
    STATE.with(|s| {
        let mut z = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        s.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    })
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let v = STATE
            .try_with(|_| ())
            .map(|_| next())
            .unwrap_or(7)
            .to_le_bytes();
        let mut k = 0;
        while k < 8 && i < len {
            *buf.add(i) = v[k];
            i += 1;
            k += 1;
        }
    }
}

/// # Safety
/// libc interface
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

/// # Safety
/// libc interface; all calls other than getrandom are forwarded to the kernel.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: isize,
    a1: usize,
    a2: usize,
    a3: usize,
    a4: usize,
    a5: usize,
    a6: usize,
) -> isize {
    if num == 318 {
        fill(a1 as *mut u8, a2);
        return a2 as isize;
    }
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") num => ret,
        in("rdi") a1, in("rsi") a2, in("rdx") a3,
        in("r10") a4, in("r8") a5, in("r9") a6,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if ret < 0 && ret > -4096 {
        extern "C" {
            fn __errno_location() -> *mut i32;
        }
        *__errno_location() = -ret as i32;
        -1
    } else {
        ret
    }
}
