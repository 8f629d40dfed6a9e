//! Shared machinery: drop tracking, instrumented stacks, abort-expecting children.
use corosensei::stack::{Stack, StackPointer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

/// 0 = never made, 1 = live, 2 = dropped
thread_local! {
    pub static REG: RefCell<Vec<u8>> = RefCell::new(Vec::new());
    pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
}

pub fn log(s: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(s.into()));
}

pub fn logged() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// A value whose drops are counted; dropping twice is fatal.
pub struct Tok(pub usize, pub u64);
impl Tok {
    pub fn new() -> Tok {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.push(1);
            let n = r.len() - 1;
            Tok(n, 0xA5A5_0000_0000_0000u64 ^ (n as u64).wrapping_mul(0x9E3779B97F4A7C15))
        })
    }
    pub fn check(&self) {
        assert_eq!(self.1, 0xA5A5_0000_0000_0000u64 ^ (self.0 as u64).wrapping_mul(0x9E3779B97F4A7C15), "token damaged");
        assert_eq!(state(self.0), 1, "token {} used although its state is {}", self.0, state(self.0));
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.0;
        let ok = self.1 == 0xA5A5_0000_0000_0000u64 ^ (id as u64).wrapping_mul(0x9E3779B97F4A7C15);
        let bad = REG.with(|r| {
            let mut r = r.borrow_mut();
            if !ok || id >= r.len() || r[id] != 1 {
                true
            } else {
                r[id] = 2;
                false
            }
        });
        if bad {
            fatal(&format!("value {id} dropped twice or damaged"));
        }
    }
}
pub fn state(id: usize) -> u8 {
    REG.with(|r| r.borrow()[id])
}
pub fn live_toks() -> Vec<usize> {
    REG.with(|r| r.borrow().iter().enumerate().filter(|x| *x.1 == 1).map(|x| x.0).collect())
}

pub fn fatal(s: &str) -> ! {
    eprintln!("FATAL: {s}");
    unsafe { libc::_exit(77) }
}

pub fn page() -> usize {
    4096
}

/// An instrumented stack: usable memory between two canary areas, filled with a pattern.
pub struct TStack {
    map: usize,
    maplen: usize,
    pub base: usize,
    pub limit: usize,
    pub drops: Rc<Cell<u32>>,
    pub on_drop: Option<Box<dyn FnOnce()>>,
    owned: bool,
}
pub const FILL: u8 = 0xC3;
impl TStack {
    pub fn new(size: usize) -> TStack {
        TStack::with_offset(size, 0)
    }
    /// base is `off` bytes (a multiple of 16) below a page boundary
    pub fn with_offset(size: usize, off: usize) -> TStack {
        unsafe {
            let canary = 8192;
            let len = (size + off + 2 * canary + 4095) & !4095;
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let map = p as usize;
            std::ptr::write_bytes(map as *mut u8, FILL, len);
            let base = map + len - 4096 - off;
            TStack { map, maplen: len, base, limit: base - size, drops: Rc::new(Cell::new(0)), on_drop: None, owned: true }
        }
    }
    pub fn check_canaries(&self) {
        check_outside(self.map, self.maplen, self.limit, self.base);
    }
    pub fn probe(&self) -> Probe {
        Probe { map: self.map, len: self.maplen, limit: self.limit, base: self.base }
    }
}
fn check_outside(map: usize, len: usize, limit: usize, base: usize) {
    unsafe {
        for a in (map..limit).chain(base..map + len) {
            if *(a as *const u8) != FILL {
                fatal(&format!("byte at {}{:#x} of the stack was written", if a >= base { "base+" } else { "limit-" }, if a >= base { a - base } else { limit - a }));
            }
        }
    }
}
#[derive(Clone, Copy)]
pub struct Probe {
    pub map: usize,
    pub len: usize,
    pub limit: usize,
    pub base: usize,
}
impl Probe {
    pub fn check(&self) {
        check_outside(self.map, self.len, self.limit, self.base)
    }
    pub fn contains(&self, a: usize) -> bool {
        a >= self.limit && a < self.base
    }
}
impl Drop for TStack {
    fn drop(&mut self) {
        self.check_canaries();
        self.drops.set(self.drops.get() + 1);
        if self.drops.get() != 1 {
            fatal("stack dropped twice");
        }
        let cb = self.on_drop.take();
        if self.owned {
            // unmapping makes every later use of the stack fault
            unsafe { libc::munmap(self.map as *mut _, self.maplen) };
        }
        if let Some(f) = cb {
            f()
        }
    }
}
unsafe impl Stack for TStack {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

pub fn sp() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Exit {
    Ok,
    Code(i32),
    Signal(i32),
    Timeout,
}

/// run f in a forked child (core dumps off, stderr to /dev/null)
pub fn child(f: impl FnOnce()) -> Exit {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(n, 2);
            libc::alarm(10);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 0 } else { 101 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 => Exit::Ok,
                c => Exit::Code(c),
            }
        } else {
            match libc::WTERMSIG(st) {
                libc::SIGALRM => Exit::Timeout,
                s => Exit::Signal(s),
            }
        }
    }
}

/// shared flags that survive a child
pub fn shared() -> &'static [std::sync::atomic::AtomicU32; 16] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const _)
    }
}
