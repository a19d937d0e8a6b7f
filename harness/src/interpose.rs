//! Makes a simulation a pure function of its seed: while a simulation runs on a thread, the
//! monotonic/real clocks read from that thread are the virtual time of the tokio runtime, and
//! kernel randomness is a seeded stream. Other threads are unaffected.

use std::cell::Cell;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static VBASE: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
}

/// Activate inside of a paused runtime.
pub fn activate(seed: u64) {
    RNG.with(|x| x.set(seed ^ 0x9e37_79b9_7f4a_7c15));
    VBASE.with(|x| x.set(Some(tokio::time::Instant::now())));
    ACTIVE.with(|x| x.set(true));
}

pub fn deactivate() {
    ACTIVE.with(|x| x.set(false));
}

pub fn seed_only(seed: u64) {
    RNG.with(|x| x.set(seed ^ 0x9e37_79b9_7f4a_7c15));
    VBASE.with(|x| x.set(None));
    ACTIVE.with(|x| x.set(true));
}

fn active() -> bool {
    ACTIVE.try_with(|x| x.get()).unwrap_or(false)
}

fn next_u64() -> u64 {
    RNG.with(|x| {
        let mut s = x.get();
        let v = crate::rng::splitmix(&mut s);
        x.set(s);
        v
    })
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw_syscall(
    n: libc::c_long,
    a: libc::c_long,
    b: libc::c_long,
    c: libc::c_long,
    d: libc::c_long,
    e: libc::c_long,
    f: libc::c_long,
) -> libc::c_long {
    let ret: libc::c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = -ret as libc::c_int;
        -1
    } else {
        ret
    }
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let b = next_u64().to_le_bytes();
        for x in b {
            if i < len {
                *buf.add(i) = x;
                i += 1;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: libc::c_long,
    b: libc::c_long,
    c: libc::c_long,
    d: libc::c_long,
    e: libc::c_long,
    f: libc::c_long,
) -> libc::c_long {
    if n == libc::SYS_getrandom && active() {
        fill(a as *mut u8, b as usize);
        return b;
    }
    raw_syscall(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    if active() {
        fill(buf as *mut u8, len);
        return len as libc::ssize_t;
    }
    raw_syscall(
        libc::SYS_getrandom,
        buf as libc::c_long,
        len as libc::c_long,
        flags as libc::c_long,
        0,
        0,
        0,
    ) as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if active() && !GUARD.with(|g| g.get()) {
        if let Some(base) = VBASE.with(|x| x.get()) {
            if tokio::runtime::Handle::try_current().is_ok() {
                GUARD.with(|g| g.set(true));
                let el = tokio::time::Instant::now().duration_since(base);
                GUARD.with(|g| g.set(false));
                let base_s: i64 = match id {
                    libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => 1_700_000_000,
                    _ => 1_000_000,
                };
                (*tp).tv_sec = base_s + el.as_secs() as i64;
                (*tp).tv_nsec = el.subsec_nanos() as i64;
                return 0;
            }
        }
    }
    raw_syscall(libc::SYS_clock_gettime, id as libc::c_long, tp as libc::c_long, 0, 0, 0, 0)
        as libc::c_int
}
