//! DefaultStack under every system call outcome, on_stack, on_parent_stack.
use crate::util::*;
use corosensei::stack::{DefaultStack, Stack};
use corosensei::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

// ------------------------------------------------------------ system call interposition
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sys {
    Map(usize, usize, i32),
    Prot(usize, usize, i32),
    Unmap(usize, usize),
}
#[derive(Default)]
struct Plan {
    on: bool,
    fail_map: bool,
    fail_prot: bool,
    page: usize,
    fake: bool,
    calls: Vec<Sys>,
}
thread_local!(static PLAN: RefCell<Plan> = RefCell::new(Plan::default()));

unsafe fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    libc::syscall(n, a, b, c, d, e, f) as isize
}
#[cfg(target_arch = "x86_64")]
const MMAP: libc::c_long = libc::SYS_mmap;
#[cfg(target_arch = "x86")]
const MMAP: libc::c_long = libc::SYS_mmap2;

#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: libc::off_t) -> *mut libc::c_void {
    let p = PLAN.try_with(|p| p.try_borrow().map(|p| (p.on, p.fail_map, p.fake)).unwrap_or_default()).unwrap_or_default();
    let r;
    if p.0 && p.1 {
        *libc::__errno_location() = libc::ENOMEM;
        r = -1isize;
    } else if p.0 && p.2 {
        r = 0x4000_0000;
    } else {
        r = raw(MMAP, a as usize, len, prot as usize, flags as usize, fd as usize, off as usize);
    }
    if p.0 {
        if r != -1 {
            trace("map", r as usize, len);
        }
        PLAN.with(|p| p.borrow_mut().calls.push(Sys::Map(r as usize, len, prot)));
    }
    r as *mut _
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut libc::c_void, len: usize, prot: i32) -> i32 {
    let p = PLAN.try_with(|p| p.try_borrow().map(|p| (p.on, p.fail_prot, p.fake)).unwrap_or_default()).unwrap_or_default();
    if p.0 {
        PLAN.with(|p| p.borrow_mut().calls.push(Sys::Prot(a as usize, len, prot)));
        if p.1 {
            *libc::__errno_location() = libc::ENOMEM;
            return -1;
        }
        if p.2 {
            return 0;
        }
    }
    raw(libc::SYS_mprotect, a as usize, len, prot as usize, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut libc::c_void, len: usize) -> i32 {
    let p = PLAN.try_with(|p| p.try_borrow().map(|p| (p.on, p.fake)).unwrap_or_default()).unwrap_or_default();
    if p.0 {
        trace("unmap", a as usize, len);
        PLAN.with(|p| p.borrow_mut().calls.push(Sys::Unmap(a as usize, len)));
        if p.1 {
            return 0;
        }
    }
    raw(libc::SYS_munmap, a as usize, len, 0, 0, 0, 0) as i32
}
extern "C" {
    fn __sysconf(n: i32) -> libc::c_long;
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: i32) -> libc::c_long {
    if n == libc::_SC_PAGESIZE {
        let p = PLAN.try_with(|p| p.try_borrow().map(|p| if p.on { p.page } else { 0 }).unwrap_or(0)).unwrap_or(0);
        return if p == 0 { 4096 } else { p as libc::c_long };
    }
    __sysconf(n)
}

fn with<R>(page: usize, fail_map: bool, fail_prot: bool, fake: bool, f: impl FnOnce() -> R) -> (R, Vec<Sys>) {
    PLAN.with(|p| *p.borrow_mut() = Plan { on: true, fail_map, fail_prot, page, fake, calls: vec![] });
    let r = f();
    let calls = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        p.on = false;
        std::mem::take(&mut p.calls)
    });
    (r, calls)
}

pub fn default_stack() {
    let mut sizes: Vec<usize> = vec![0, 1, 15, 16, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 1 << 20, (1 << 20) + 1];
    for k in 0..40 {
        sizes.push(5000 + k * 997);
    }
    for page in [4096usize, 8192, 16384, 65536, 1 << 21] {
        let fake = page != 4096;
        for &size in &sizes {
            for (fm, fp) in [(false, false), (true, false), (false, true)] {
                let mut info = None;
                let (_, calls) = with(page, fm, fp, fake, || match DefaultStack::new(size) {
                    Ok(s) => {
                        info = Some((s.base().get(), s.limit().get()));
                        drop(s);
                    }
                    Err(_) => {}
                });
                let what = format!("size {size} page {page} mmap-fails {fm} mprotect-fails {fp}: {calls:x?}");
                assert_eq!(info.is_some(), !fm && !fp, "{what}");
                let maps: Vec<(usize, usize)> = calls.iter().filter_map(|c| if let Sys::Map(a, l, _) = c { Some((*a, *l)) } else { None }).collect();
                let un: Vec<(usize, usize)> = calls.iter().filter_map(|c| if let Sys::Unmap(a, l) = c { Some((*a, *l)) } else { None }).collect();
                if fm {
                    assert!(un.is_empty(), "{what}");
                    continue;
                }
                let up = |x: usize| (x + page - 1) & !(page - 1);
                assert_eq!(maps.len(), 1, "{what}");
                assert_eq!(un.len(), 1, "unmapped {} times: {what}", un.len());
                assert_eq!((maps[0].0, up(maps[0].1)), (un[0].0, up(un[0].1)), "{what}");
                let (lo, hi) = (maps[0].0, maps[0].0 + up(maps[0].1));
                if let Some((b, l)) = info {
                    let need = size.max(4096);
                    assert!(b % 16 == 0 && l % 16 == 0 && l >= lo && b <= hi && b - l >= need + page, "base {b:#x} limit {l:#x}: {what}");
                    let prot = |x: usize| {
                        let mut r = 0;
                        for c in &calls {
                            match c {
                                Sys::Map(a, n, p) if x >= *a && x < a + up(*n) => r = *p,
                                Sys::Prot(a, n, p) if x >= *a && x < a + up(*n) => r = *p,
                                Sys::Prot(a, n, _) => assert!(*a >= lo && a + n <= hi && a % page == 0, "{what}"),
                                _ => {}
                            }
                        }
                        r
                    };
                    for x in [b - 1, b - 4096, b - need, l + page] {
                        assert_eq!(prot(x) & 3, 3, "address base-{:#x} is not writable: {what}", b - x);
                    }
                    for x in [l, l + 16, l + page - 1] {
                        assert_eq!(prot(x) & 7, 0, "address limit+{:#x} is not guarded: {what}", x - l);
                    }
                }
            }
        }
    }
    // sizes near the top never wrap around
    for page in [4096usize, 65536, 1 << 21] {
        for d in [0, 1, 2, 4095, 4096, 4097, 8190, 8191, 8192, 8193, page - 1, page, page + 1, 2 * page - 2, 2 * page - 1, 2 * page, 2 * page + 1, 3 * page, 1 << 22] {
            let size = usize::MAX - d;
            let (r, calls) = with(page, false, false, true, || {
                catch_unwind(|| match DefaultStack::new(size) {
                    Ok(s) => {
                        let r = (s.base().get(), s.limit().get());
                        std::mem::forget(s);
                        Some(r)
                    }
                    Err(_) => None,
                })
            });
            for c in &calls {
                if let Sys::Map(_, l, _) = c {
                    assert!(*l >= size, "mapping of {l:#x} bytes for a stack of {size:#x}");
                }
            }
            if let Ok(Some((b, l))) = r {
                assert!(b.wrapping_sub(l) >= size, "stack of {:#x} bytes for {size:#x}", b.wrapping_sub(l));
            }
        }
    }
    // the real thing
    for size in [0usize, 1, 4096, 5000, 100000, 1 << 20] {
        let s = DefaultStack::new(size).unwrap();
        let (b, l) = (s.base().get(), s.limit().get());
        unsafe {
            for x in (b - size.max(4096)..b).step_by(64) {
                *(x as *mut u8) = 1;
            }
        }
        for x in [l, l + 4095] {
            let e = child(|| unsafe { *(x as *mut u8) = 1 });
            assert_eq!(e, Exit::Signal(libc::SIGSEGV), "the guard page at limit+{} is writable", x - l);
        }
        drop(s);
        let e = child(|| unsafe { *((b - 16) as *mut u8) = 1 });
        assert_eq!(e, Exit::Signal(libc::SIGSEGV), "memory still mapped after drop");
    }
    let d = DefaultStack::default();
    assert!(d.base().get() - d.limit().get() >= 4096);
    // a default stack that cannot be created is reported, too
    for (fm, fp) in [(true, false), (false, true)] {
        let (r, calls) = with(4096, fm, fp, false, || catch_unwind(|| DefaultStack::default().base().get()));
        assert!(r.is_err(), "DefaultStack::default() hides a failure: {calls:x?}");
        let n = calls.iter().filter(|c| matches!(c, Sys::Map(a, ..) if *a != usize::MAX)).count();
        assert_eq!(n, calls.iter().filter(|c| matches!(c, Sys::Unmap(..))).count(), "{calls:x?}");
    }
}

pub fn default_co() {
    for (fm, fp) in [(false, false), (true, false), (false, true)] {
        for act in 0..3 {
            let t = Tok::new();
            let (_, calls) = with(4096, fm, fp, false, || {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut co = Coroutine::<u8, u8, u8>::new(move |y, i| {
                        t.check();
                        y.suspend(i) + 1
                    });
                    if act > 0 {
                        assert_eq!(co.resume(1).as_yield(), Some(1));
                    }
                    if act > 1 || (act > 0 && !cfg!(feature = "unwind")) {
                        assert_eq!(co.resume(4).as_return(), Some(5));
                    }
                }));
                assert_eq!(r.is_ok(), !fm && !fp);
            });
            assert!(live_toks().is_empty());
            let m = calls.iter().filter(|c| matches!(c, Sys::Map(a, ..) if *a != usize::MAX)).count();
            let maps: Vec<usize> = calls.iter().filter_map(|c| if let Sys::Map(a, ..) = c { Some(*a) } else { None }).collect();
            let u = calls.iter().filter(|c| matches!(c, Sys::Unmap(a, _) if maps.contains(a))).count();
            assert_eq!(m, u, "{calls:x?}");
        }
    }
}

// ------------------------------------------------------------ on_stack
fn on<P: crate::values::V, R: crate::values::V>() {
    for off in [0usize, 16, 48, 240] {
        let mut st = TStack::with_offset(400_000, off);
        let pr = st.probe();
        let drops = st.drops.clone();
        let ran = Rc::new(Cell::new(0));
        let ran2 = ran.clone();
        st.on_drop = Some(Box::new(move || assert_eq!(ran2.get(), 1, "stack released before the closure ran")));
        let p = P::make(5);
        let pid = p.id();
        let t = Tok::new();
        let r3 = ran.clone();
        let want = Rc::new(RefCell::new(None));
        let w2 = want.clone();
        let r = on_stack(st, move || {
            assert!(pr.contains(sp()), "closure runs elsewhere");
            assert_eq!(p.id(), pid, "captured value changed");
            t.check();
            let r = R::make(11);
            *w2.borrow_mut() = Some(r.id());
            r3.set(r3.get() + 1);
            r
        });
        assert_eq!(Some(r.id()), *want.borrow(), "another result");
        assert_eq!(ran.get(), 1);
        assert_eq!(drops.get(), 1);
        drop(r);
        assert!(live_toks().is_empty());
    }
}
/// the same on the parent's stack, with the closure's result checked in the coroutine
fn onp<P: crate::values::V, R: crate::values::V>() {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    impl<T> S<T> {
        fn get(self) -> T {
            self.0
        }
    }
    let st = TStack::new(400_000);
    let pr = st.probe();
    let mut co = Coroutine::<u8, u8, u8, TStack>::with_stack(st, move |y, mut i| {
        for _ in 0..3 {
            let p = S((P::make(5), Tok::new()));
            let r = y.on_parent_stack(move || {
                let (p, t) = p.get();
                assert!(!pr.contains(sp()), "on_parent_stack runs on the coroutine's stack");
                t.check();
                p.id();
                let r = R::make(11);
                let big = std::hint::black_box([1u8; 2000]);
                std::hint::black_box(&big);
                S((r.id(), r))
            });
            let (want, r) = r.get();
            assert_eq!(want, r.id(), "another result");
            assert!(pr.contains(sp()));
            i = y.suspend(i + 1);
        }
        i
    });
    #[inline(never)]
    fn d(co: &mut Coroutine<u8, u8, u8, TStack>, k: u8, n: u32) {
        let live = std::hint::black_box([k; 100]);
        if n > 0 {
            d(co, k, n - 1)
        } else if k < 3 {
            assert_eq!(co.resume(k).as_yield(), Some(k + 1));
        } else {
            assert_eq!(co.resume(k).as_return(), Some(k));
        }
        assert!(std::hint::black_box(&live).iter().all(|x| *x == k), "the parent's data was overwritten");
    }
    for k in 0..4u8 {
        d(&mut co, k, (k as u32 * 3) % 5);
    }
    assert!(live_toks().is_empty());
}
macro_rules! on_types {
    ($f:ident) => {
        use crate::values::*;
        $f::<(), ()>();
        $f::<u8, u8>();
        $f::<u64, u128>();
        $f::<[u8; 3], [u8; 300]>();
        $f::<[u8; 300], [u8; 3]>();
        $f::<Tok, Tok>();
        $f::<Option<Tok>, Box<u64>>();
        $f::<String, Result<Box<u8>, Box<u64>>>();
        $f::<A64<3>, u8>();
        $f::<u8, A64<3>>();
        $f::<A4096<1>, A128<3>>();
        $f::<A2<1>, A32<5>>();
        $f::<[u8; 1000], Fat<40>>();
        $f::<Fat<8>, ()>();
        $f::<(u64, u8), bool>();
    };
}
/// closures whose captures and results are exactly of the given types, zero-sized ones included
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static RAN: AtomicUsize = AtomicUsize::new(0);
fn inside() -> bool {
    RAN.fetch_add(1, Ordering::Relaxed);
    let s = sp();
    s >= LO.load(Ordering::Relaxed) && s < HI.load(Ordering::Relaxed)
}
fn set_range<S: Stack>(st: &S) {
    LO.store(st.limit().get(), Ordering::Relaxed);
    HI.store(st.base().get(), Ordering::Relaxed);
}
fn exact<C: Copy + Send + 'static, R: Copy + PartialEq + std::fmt::Debug + 'static>(c: C, r: impl Fn() -> R + Copy + 'static, f: impl FnOnce() -> R + Copy + Send + 'static) {
    let st = TStack::new(400_000);
    set_range(&st);
    let n = RAN.load(Ordering::Relaxed);
    assert_eq!(on_stack(st, f), r());
    assert_eq!(RAN.load(Ordering::Relaxed), n + 1, "the closure did not run exactly once");
    assert_eq!(WAS.load(Ordering::Relaxed), 1, "closure runs elsewhere");
    let st = TStack::new(400_000);
    set_range(&st);
    let mut co = Coroutine::<(), (), (), TStack>::with_stack(st, move |y, ()| {
        for _ in 0..2 {
            let n = RAN.load(Ordering::Relaxed);
            assert_eq!(y.on_parent_stack(f), r());
            assert_eq!(RAN.load(Ordering::Relaxed), n + 1, "the closure did not run exactly once");
            assert_eq!(WAS.load(Ordering::Relaxed), 0, "on_parent_stack runs on the coroutine's stack");
            y.suspend(());
        }
    });
    while let CoroutineResult::Yield(()) = co.resume(()) {}
    std::hint::black_box(c);
}
static WAS: AtomicUsize = AtomicUsize::new(0);
fn note() {
    WAS.store(inside() as usize, Ordering::Relaxed);
}
fn raws() {
    exact((), || (), || note());
    exact((), || 3u8, || {
        note();
        3u8
    });
    exact((), || [7u64; 9], || {
        note();
        [7u64; 9]
    });
    macro_rules! cap {
        ($($e:expr),*) => {$(
            let c = std::hint::black_box($e);
            exact(c, || (), move || { note(); std::hint::black_box(&c); });
            exact(c, || 5u32, move || { note(); std::hint::black_box(&c); 5u32 });
            exact(c, || [1u8; 100], move || { note(); std::hint::black_box(&c); [1u8; 100] });
            exact(c, || $e, move || { note(); c });
        )*};
    }
    cap!(1u8, 2u16, 3u32, 4u64, 5u128, [6u8; 3], [7u8; 17], [8u32; 5], [9u8; 500], (10u8, 11u64));
}
pub fn onstack() {
    on_types!(on);
    raws();
}
pub fn onparent() {
    on_types!(onp);
    raws();
}

#[cfg(feature = "unwind")]
pub fn onstack_panics() {
    use std::panic::resume_unwind;
    for depth in 0..3 {
        let st = TStack::new(400_000);
        let drops = st.drops.clone();
        let id = Rc::new(Cell::new(0));
        let id2 = id.clone();
        let cap = Tok::new();
        let e = catch_unwind(AssertUnwindSafe(|| {
            let cap = cap;
            let _l = Tok::new();
            on_stack(st, move || {
                let _c = cap;
                let _l = Tok::new();
                fn go(d: u32, id: &Cell<usize>) {
                    let _l = Tok::new();
                    if d == 0 {
                        let t = Tok::new();
                        id.set(t.0);
                        resume_unwind(Box::new(t))
                    }
                    on_stack(TStack::new(65536), || go(d - 1, id))
                }
                go(depth, &id2)
            })
        }))
        .err()
        .expect("panic vanished");
        let t = e.downcast::<Tok>().expect("another payload");
        assert_eq!(t.0, id.get());
        assert_eq!(drops.get(), 1);
        assert_eq!(live_toks(), vec![t.0]);
        drop(t);
    }
    // on_parent_stack
    let mut co = Coroutine::<u8, u8, u8, TStack>::with_stack(TStack::new(400_000), |y, i| {
        for k in 0..3u8 {
            let e = catch_unwind(AssertUnwindSafe(|| y.on_parent_stack(move || std::panic::resume_unwind(Box::new(k))))).err().expect("panic vanished");
            assert_eq!(*e.downcast::<u8>().unwrap(), k);
            assert_eq!(y.suspend(k), k);
        }
        i
    });
    for k in 0..4 {
        let v = if k == 0 { 9 } else { k - 1 };
        let r = co.resume(v);
        if k < 3 {
            assert_eq!(r.as_yield(), Some(k));
        } else {
            assert_eq!(r.as_return(), Some(9));
        }
    }
}

/// prints the registrations expected from Valgrind's log, for the driver to compare
static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn trace(what: &str, a: usize, l: usize) {
    if TRACE.load(std::sync::atomic::Ordering::Relaxed) {
        let s = format!("\nVCEV {what} {:x} {:x}\n", a, a.wrapping_add(l));
        unsafe { libc::write(2, s.as_ptr() as *const _, s.len()) };
    }
}
/// prints the life of each mapping; the caller compares it with valgrind's own log
pub fn valgrind_print() {
    TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
    for size in [1usize, 4096, 10000, 1 << 20] {
        with(4096, false, false, false, || {
            let s = DefaultStack::new(size).unwrap();
            trace("live", s.limit().get(), s.base().get() - s.limit().get());
            drop(s);
        });
    }
    with(4096, false, false, false, || {
        let a = DefaultStack::new(5000).unwrap();
        trace("live", a.limit().get(), a.base().get() - a.limit().get());
        let b = DefaultStack::new(9000).unwrap();
        trace("live", b.limit().get(), b.base().get() - b.limit().get());
        drop(a);
        let c = DefaultStack::default();
        trace("live", c.limit().get(), c.base().get() - c.limit().get());
        drop(c);
        drop(b);
    });
    for (fm, fp) in [(true, false), (false, true), (false, true)] {
        with(4096, fm, fp, false, || assert!(DefaultStack::new(5000).is_err()));
    }
    with(4096, false, false, false, || {
        let mut co = Coroutine::<u8, u8, u8>::new(|y, i| y.suspend(i));
        co.resume(1);
        co.resume(1);
        let s = co.into_stack();
        trace("live", s.limit().get(), s.base().get() - s.limit().get());
        let mut co = Coroutine::<u8, u8, u8, _>::with_stack(s, |y, i| y.suspend(i));
        co.resume(1);
        co.resume(1);
    });
    trace("end", 0, 0);
}

/// the requests the library makes, seen by single-stepping through it
pub fn valgrind_requests() {
    use crate::machine::{requests, Request};
    fn balanced(r: &[Request], calls: &[Sys], created: usize) {
        let what = format!("{r:x?} {calls:x?}");
        assert!(r.iter().all(|q| q.exact), "the request is not the sequence Valgrind recognizes: {what}");
        assert!(r.iter().all(|q| q.mapped), "a request concerns memory that is not mapped: {what}");
        let regs: Vec<_> = r.iter().filter(|q| q.code == 0x1501).collect();
        let dereg: Vec<_> = r.iter().filter(|q| q.code == 0x1502).collect();
        assert_eq!(regs.len() + dereg.len(), r.len(), "unknown request: {what}");
        assert!(regs.len() >= created, "a stack is not registered: {what}");
        assert_eq!(regs.len(), dereg.len(), "registrations are not balanced: {what}");
        for q in &regs {
            assert_eq!(dereg.iter().filter(|d| d.a == q.id).count(), 1, "a registration is not dropped once: {what}");
            assert!(calls.iter().any(|c| matches!(c, Sys::Map(a, l, _) if q.a == *a && q.b == *a + *l)), "the range registered is not the mapping: {what}");
        }
    }
    for size in [1usize, 5000, 1 << 20] {
        for (fm, fp) in [(false, false), (true, false), (false, true)] {
            let mut r = vec![];
            let (_, calls) = with(4096, fm, fp, false, || {
                r = requests(&mut || drop(DefaultStack::new(size)));
            });
            balanced(&r, &calls, (!fm && !fp) as usize);
        }
    }
    let mut r = vec![];
    let (_, calls) = with(4096, false, false, false, || {
        r = requests(&mut || {
            let a = DefaultStack::new(5000).unwrap();
            let b = DefaultStack::default();
            drop(a);
            let c = DefaultStack::new(9000).unwrap();
            drop(b);
            let mut co = Coroutine::<u8, u8, u8, _>::with_stack(c, |y, i| y.suspend(i));
            co.resume(1);
            co.resume(1);
            drop(co.into_stack());
            let mut co = Coroutine::<u8, u8, u8>::new(|y, i| y.suspend(i));
            co.resume(1);
            co.resume(1);
        });
    });
    balanced(&r, &calls, 4);
}

/// the request leaves live registers alone
pub fn valgrind_inert() {
    for k in 0..200u64 {
        let a = std::hint::black_box([k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6, k + 7, k * 3, k * 5, k * 7, k * 11]);
        let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = a;
        let s = DefaultStack::new(4096 * (1 + k as usize % 3)).unwrap();
        let sum = a0 ^ a1.rotate_left(5) ^ a2.rotate_left(10) ^ a3.rotate_left(15) ^ a4.rotate_left(20) ^ a5.rotate_left(25) ^ a6 ^ a7 ^ a8 ^ a9 ^ a10 ^ a11;
        std::hint::black_box(&s);
        let [b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11] = std::hint::black_box(a);
        let sum2 = b0 ^ b1.rotate_left(5) ^ b2.rotate_left(10) ^ b3.rotate_left(15) ^ b4.rotate_left(20) ^ b5.rotate_left(25) ^ b6 ^ b7 ^ b8 ^ b9 ^ b10 ^ b11;
        assert_eq!(sum, sum2);
    }
}
