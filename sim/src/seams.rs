//! Seams for randomness: every source of random keys in the process is a function of the run seed.
//!
//! * std `HashMap` keys come from the libc symbol `getrandom` (std documents that it may be
//!   interposed), once per thread; every run starts on fresh threads.
//! * ahash keys come from `syscall(SYS_getrandom)` once per process (forced at start-up here) and
//!   from `ahash::RandomSource` once per `RandomState`.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static ENTROPY: AtomicU64 = AtomicU64::new(0x5EED);
static ENTROPY_CALLS: AtomicU64 = AtomicU64::new(0);

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn next_entropy() -> u64 {
    ENTROPY_CALLS.fetch_add(1, SeqCst);
    mix64(ENTROPY.fetch_add(0x9e3779b97f4a7c15, SeqCst).wrapping_add(0x9e3779b97f4a7c15))
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let w = next_entropy().to_le_bytes();
        let mut j = 0;
        while j < 8 && i < len {
            *buf.add(i) = w[j];
            i += 1;
            j += 1;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    fill(buf as *mut u8, len);
    len as isize
}

/// libc's `syscall()`: everything but SYS_getrandom goes to the kernel unchanged.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if num == libc::SYS_getrandom as i64 {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let ret: i64;
    std::arch::asm!("syscall",
        inlateout("rax") num => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if ret < 0 && ret > -4096 {
        *libc::__errno_location() = (-ret) as i32;
        -1
    } else {
        ret
    }
}

struct Source;
impl ahash::random_state::RandomSource for Source {
    fn gen_hasher_seed(&self) -> usize {
        next_entropy() as usize
    }
}

/// To be called first thing in `main`.
pub fn init() {
    let key = std::env::var("DSIM_PROC_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    ENTROPY.store(mix64(key ^ 0x5EED), SeqCst);
    ahash::random_state::set_random_source(Source).expect("ahash random source already in use");
    let _ = ahash::RandomState::new(); // fixes the per-process keys now
}

/// Everything drawn from now on is a function of `seed`.
pub fn set_entropy(seed: u64) {
    ENTROPY.store(mix64(seed ^ 0xa5a5_5a5a_1234_4321), SeqCst);
    ENTROPY_CALLS.store(0, SeqCst);
}

pub fn entropy_calls() -> u64 {
    ENTROPY_CALLS.load(SeqCst)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix64(seed ^ 0x1357_9bdf_2468_ace0))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix64(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 11) as u128 * n as u128 >> 53) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pct(&mut self, p: u32) -> bool {
        (self.below(100) as u32) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total.max(1) as usize) as u32;
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}
