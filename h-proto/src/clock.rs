//! The protocol handlers measure time with `Instant`: on threads of executions the system's
//! clock is the virtual one.
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

const BOOTED: i64 = 1_000_000;
const BORN: i64 = 1_600_000_000;

pub fn install() {
    ON.with(|o| o.set(true))
}

/// # Safety
/// libc interface
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let now = tokio_yamux::verif::now() as i64;
        let base = if id == 0 { BORN } else { BOOTED };
        *ts = [base + now / 1_000_000_000, now % 1_000_000_000];
        return 0;
    }
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") 228isize => ret,
        in("rdi") id as isize, in("rsi") ts,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret as i32
}
