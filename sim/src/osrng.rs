//! The operating system's random source behind a seam: `getrandom(2)`, which `OsRng` reaches
//! through libc's `syscall`, is served from the simulated stream of the current endpoint while
//! one is installed on this thread. Every other system call goes to the kernel untouched.
use crate::rng::LibRng;
use rand_core::RngCore;
use std::arch::asm;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

thread_local! {
    static SRC: RefCell<Option<LibRng>> = const { RefCell::new(None) };
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

const SYS_GETRANDOM: i64 = 318;

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

// In a `sub` process (cross-session comparisons) every ambient input is simulated: the clocks,
// the process id, the environment and the operating system's random source outside `with_os_rng`.
static VIRT: AtomicBool = AtomicBool::new(false);
static OSKEY: AtomicU64 = AtomicU64::new(0);
static OSPOS: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicU64 = AtomicU64::new(1);
static PID: AtomicU64 = AtomicU64::new(1);
static ENV: AtomicU64 = AtomicU64::new(0);
/// ambient reads made by anything in the process
pub static AMBIENT: AtomicU64 = AtomicU64::new(0);

pub fn virtualise(key: u64, clock_ns: u64, step_ns: u64, pid: u64, env: u64) {
    ENV.store(env, Ordering::Relaxed);
    OSKEY.store(key, Ordering::Relaxed);
    CLOCK.store(clock_ns, Ordering::Relaxed);
    STEP.store(step_ns, Ordering::Relaxed);
    PID.store(pid, Ordering::Relaxed);
    VIRT.store(true, Ordering::Relaxed);
}

unsafe fn os_bytes(p: *mut u8, n: usize) {
    AMBIENT.fetch_add(1, Ordering::Relaxed);
    for i in 0..n {
        let o = OSPOS.fetch_add(1, Ordering::Relaxed);
        *p.add(i) = crate::rng::mix(&[OSKEY.load(Ordering::Relaxed), o]) as u8;
    }
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// # Safety
/// Same contract as libc's `clock_gettime`.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if VIRT.load(Ordering::Relaxed) {
        AMBIENT.fetch_add(1, Ordering::Relaxed);
        let t = CLOCK.fetch_add(STEP.load(Ordering::Relaxed), Ordering::Relaxed);
        (*ts).sec = (t / 1_000_000_000) as i64;
        (*ts).nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw(228, clk as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    0
}

/// # Safety
/// Same contract as libc's `getrandom`.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    syscall(SYS_GETRANDOM, p as i64, n as i64, fl as i64, 0, 0, 0) as isize
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    if VIRT.load(Ordering::Relaxed) {
        AMBIENT.fetch_add(1, Ordering::Relaxed);
        return PID.load(Ordering::Relaxed) as i32;
    }
    unsafe { raw(39, 0, 0, 0, 0, 0, 0) as i32 }
}

extern "C" {
    static environ: *const *const u8;
}

/// # Safety
/// Same contract as libc's `getenv`. In a virtual process every variable the code under test
/// asks for is set or unset as the request says; the runtime's own (`RUST_*`) are real.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let name = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
    if VIRT.load(Ordering::Relaxed) && !name.starts_with(b"RUST_") {
        AMBIENT.fetch_add(1, Ordering::Relaxed);
        return match ENV.load(Ordering::Relaxed) {
            0 => std::ptr::null(),
            e => [b"1\0".as_slice(), b"\0", b"0\0", b"yes\0", b"17\0"][(e % 5) as usize].as_ptr(),
        };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p as *const _).to_bytes();
        if e.len() > name.len() && e[name.len()] == b'=' && e.starts_with(name) {
            return (*p).add(name.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

unsafe fn fail(errno: i32) -> i32 {
    *__errno_location() = errno;
    -1
}

/// # Safety
/// Same contract as libc's `open64`. A virtual process finds no file or, with an environment,
/// simulated contents wherever it looks; nothing is written anywhere.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if VIRT.load(Ordering::Relaxed) {
        AMBIENT.fetch_add(1, Ordering::Relaxed);
        let e = ENV.load(Ordering::Relaxed);
        let mut fd = [0i32; 2];
        if e == 0 || flags & 3 != 0 || raw(293, fd.as_mut_ptr() as i64, 0o2000000, 0, 0, 0, 0) < 0 {
            return fail(2);
        }
        let text = format!("{e:032x}\n");
        raw(1, fd[1] as i64, text.as_ptr() as i64, text.len() as i64, 0, 0, 0);
        raw(3, fd[1] as i64, 0, 0, 0, 0, 0);
        return fd[0];
    }
    let r = raw(257, -100, path as i64, flags as i64, mode as i64, 0, 0);
    if r < 0 {
        return fail(-r as i32);
    }
    r as i32
}

/// # Safety
/// Same contract as libc's `gethostname`.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn gethostname(p: *mut u8, n: usize) -> i32 {
    AMBIENT.fetch_add(1, Ordering::Relaxed);
    let name = format!("host{}\0", ENV.load(Ordering::Relaxed) % 1000);
    if name.len() > n {
        return fail(36);
    }
    p.copy_from_nonoverlapping(name.as_ptr(), name.len());
    0
}

/// # Safety
/// Same contract as libc's `sched_getaffinity`.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if VIRT.load(Ordering::Relaxed) {
        AMBIENT.fetch_add(1, Ordering::Relaxed);
        set.write_bytes(0, n);
        *set = if ENV.load(Ordering::Relaxed) == 0 { 0x03 } else { 0x1f };
        return 0;
    }
    let r = raw(204, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 {
        return fail(-r as i32);
    }
    if (r as usize) < n {
        set.add(r as usize).write_bytes(0, n - r as usize);
    }
    0
}

/// # Safety
/// Same contract as libc's `syscall`.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM && b > 0 {
        let served = SRC.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if let Some(r) = s.as_mut() {
                    r.fill_bytes(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
                    return true;
                }
            }
            false
        });
        if served == Ok(true) {
            return b;
        }
        if VIRT.load(Ordering::Relaxed) {
            os_bytes(a as *mut u8, b as usize);
            return b;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

/// Run `f` with the operating system's random source replaced by `rng`.
pub fn with_os_rng<T>(rng: &LibRng, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SRC.with(|s| *s.borrow_mut() = None);
        }
    }
    SRC.with(|s| *s.borrow_mut() = Some(rng.clone()));
    let _r = Reset;
    f()
}
