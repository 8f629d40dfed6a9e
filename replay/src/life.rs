//! Histories: lifecycle, panics, forced unwinding, ownership, and a random universe of coroutines.
use crate::util::*;
use corosensei::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type Co = Coroutine<u32, u32, u32, TStack>;

/// every short sequence of operations on a coroutine that suspends n times
pub fn histories() {
    let ops = if cfg!(feature = "unwind") { 4u32 } else { 2 };
    for n in 0..3u32 {
        for len in 0..6u32 {
            let mut code = 0;
            while code < ops.pow(len) {
                history(n, len, code, ops);
                code += 1;
            }
        }
    }
}

fn history(n: u32, len: u32, mut code: u32, ops: u32) {
    let st = TStack::new(65536);
    let drops = st.drops.clone();
    let runs = Rc::new(Cell::new(0u32));
    let r2 = runs.clone();
    let guard = Tok::new();
    let gid = guard.0;
    let mut co = Co::with_stack(st, move |y, mut i| {
        let _l = Tok::new();
        for k in 0..n {
            r2.set(r2.get() + 1);
            i = y.suspend(i.wrapping_add(k));
        }
        r2.set(r2.get() + 1);
        drop(guard);
        i + 100
    });
    let mut resumes = 0;
    let mut done = false;
    let mut started = false;
    for _ in 0..len {
        assert_eq!(co.started(), started);
        assert_eq!(co.done(), done);
        match code % ops {
            0 => {
                let before = runs.get();
                let r = catch_unwind(AssertUnwindSafe(|| co.resume(7 + resumes)));
                if done {
                    assert!(r.is_err(), "resume of a completed coroutine succeeded");
                    assert_eq!(runs.get(), before);
                } else {
                    let r = r.unwrap();
                    started = true;
                    assert_eq!(runs.get(), before + 1);
                    if resumes < n {
                        assert_eq!(r.as_yield(), Some(7 + resumes + resumes));
                    } else {
                        assert_eq!(r.as_return(), Some(7 + resumes + 100));
                        done = true;
                    }
                    resumes += 1;
                }
            }
            1 => {
                if started && !done && !cfg!(feature = "unwind") {
                    assert!(catch_unwind(AssertUnwindSafe(|| co.force_unwind())).is_err());
                    assert_eq!(state(gid), 1, "a refused force_unwind dropped something");
                } else {
                    let before = runs.get();
                    co.force_unwind();
                    assert_eq!(runs.get(), before);
                    assert_eq!(state(gid), 2);
                    done = true;
                    started = true;
                }
            }
            2 => {
                // into_stack
                let ok = done;
                match catch_unwind(AssertUnwindSafe(|| co.into_stack())) {
                    Ok(s) => {
                        assert!(ok);
                        assert_eq!(drops.get(), 0, "into_stack dropped the stack");
                        let mut c2 = Co::with_stack(s, |y, i| y.suspend(i * 2) * 3);
                        assert_eq!(c2.resume(5).as_yield(), Some(10));
                        assert_eq!(c2.resume(5).as_return(), Some(15));
                        drop(c2);
                    }
                    Err(_) => assert!(!ok, "into_stack of a completed coroutine panicked"),
                }
                assert_eq!(drops.get(), 1);
                assert_eq!(state(gid), 2);
                assert_eq!(live_toks(), Vec::<usize>::new());
                return;
            }
            _ => {
                // move it around
                co = *Box::new(co);
            }
        }
        code /= ops;
    }
    assert_eq!(co.started(), started);
    assert_eq!(co.done(), done);
    if !cfg!(feature = "unwind") {
        while started && !co.done() {
            co.resume(1);
        }
    }
    drop(co);
    assert_eq!(drops.get(), 1);
    assert_eq!(live_toks(), Vec::<usize>::new());
}

pub fn reset() {
    for n in 0..3 {
        let st = TStack::new(65536);
        let drops = st.drops.clone();
        let mut co = Co::with_stack(st, |y, mut i| loop {
            i = y.suspend(i + 1);
        });
        for k in 0..n {
            assert_eq!(co.resume(k).as_yield(), Some(k + 1));
        }
        unsafe { co.force_reset() };
        assert!(co.done() && co.started());
        if n == 1 {
            assert!(catch_unwind(AssertUnwindSafe(|| co.resume(1))).is_err());
            co.force_unwind();
            drop(co);
        } else {
            let s = co.into_stack();
            assert_eq!(drops.get(), 0);
            let mut c2 = Co::with_stack(s, |y, i| y.suspend(i + 5) + 6);
            assert_eq!(c2.resume(1).as_yield(), Some(6));
            assert_eq!(c2.resume(1).as_return(), Some(7));
        }
        assert_eq!(drops.get(), 1);
    }
}

/// many resumes of one coroutine, also at very different depths of the resumer's stack
pub fn marathon() {
    let mut co = Co::with_stack(TStack::new(65536), |y, mut i| {
        let mut n = 0u32;
        while n < 70000 {
            i = y.suspend(i ^ n);
            n += 1;
        }
        i
    });
    #[inline(never)]
    fn deep(co: &mut Co, v: u32, d: u32) -> CoroutineResult<u32, u32> {
        let pad = [d; 40];
        std::hint::black_box(&pad);
        if d == 0 {
            let r = co.resume(v);
            std::hint::black_box(&pad);
            return r;
        }
        let r = deep(co, v, d - 1);
        assert!(std::hint::black_box(&pad).iter().all(|x| *x == d));
        r
    }
    for n in 0..70000u32 {
        let v = n.wrapping_mul(0x9E3779B9);
        let r = deep(&mut co, v, n % 37);
        assert_eq!(r.as_yield(), Some(v ^ n));
        assert!(!co.done() && co.started());
    }
    assert_eq!(deep(&mut co, 5, 3).as_return(), Some(5));
    assert!(co.done());
}

// ------------------------------------------------------------ panics
#[cfg(feature = "unwind")]
mod unw {
    use super::*;

    pub fn payload_id(p: &Box<dyn std::any::Any + Send>) -> Option<usize> {
        p.downcast_ref::<Tok>().map(|t| {
            t.check();
            t.0
        })
    }

    /// a panic with an identifiable payload at every point, at every nesting depth
    pub fn panics() {
        for depth in 1..5 {
            for at in 0..4 {
                let sent = Rc::new(Cell::new((usize::MAX, 0usize)));
                let r = catch_unwind(AssertUnwindSafe(|| nest(depth, at, sent.clone())));
                let p = r.err().expect("the panic vanished");
                assert_eq!(payload_id(&p), Some(sent.get().0), "another payload arrived");
                assert_eq!(&*p as *const dyn std::any::Any as *const u8 as usize, sent.get().1, "the payload is a copy");
                assert_eq!(live_toks(), vec![sent.get().0], "unwinding left objects behind");
                drop(p);
                assert!(live_toks().is_empty());
            }
        }
    }
    fn nest(depth: u32, at: u32, sent: Rc<Cell<(usize, usize)>>) {
        let _g = Tok::new();
        let st = TStack::new(131072);
        let drops = st.drops.clone();
        let mut co = Coroutine::<Tok, Tok, Tok, TStack>::with_stack(st, move |y, mut i| {
            let _l = Tok::new();
            for k in 0..4 {
                if k == at && depth > 1 {
                    nest(depth - 1, at, sent.clone());
                } else if k == at {
                    let t = Tok::new();
                    let b: Box<dyn std::any::Any + Send> = Box::new(t);
                    sent.set((b.downcast_ref::<Tok>().unwrap().0, &*b as *const dyn std::any::Any as *const u8 as usize));
                    resume_unwind(b);
                }
                i.check();
                i = y.suspend(i);
            }
            i
        });
        for k in 0..=at {
            let t = Tok::new();
            let id = t.0;
            let r = catch_unwind(AssertUnwindSafe(|| co.resume(t)));
            match r {
                Ok(v) => {
                    assert!(k < at);
                    assert_eq!(v.as_yield().unwrap().0, id);
                }
                Err(p) => {
                    assert_eq!(k, at, "panicked at another point");
                    assert!(co.done() && co.started());
                    assert_eq!(drops.get(), 0);
                    co.force_unwind();
                    assert!(catch_unwind(AssertUnwindSafe(|| co.resume(Tok::new()))).is_err());
                    let s = co.into_stack();
                    drop(s);
                    resume_unwind(p);
                }
            }
        }
        unreachable!();
    }

    /// payloads of other kinds, from panic! and resume_unwind
    pub fn payloads() {
        struct Z;
        for kind in 0..5 {
            let mut co = Co::with_stack(TStack::new(131072), move |y, i| {
                y.suspend(i);
                match kind {
                    0 => panic!("a message"),
                    1 => panic!("formatted {}", kind),
                    2 => std::panic::panic_any(Z),
                    3 => resume_unwind(Box::new(1234567u64)),
                    _ => std::panic::panic_any([7u8; 100]),
                }
            });
            co.resume(0);
            let p = catch_unwind(AssertUnwindSafe(|| co.resume(0))).err().expect("no panic");
            let ok = match kind {
                0 => *p.downcast::<&'static str>().unwrap() == "a message",
                1 => *p.downcast::<String>().unwrap() == "formatted 1",
                2 => p.is::<Z>(),
                3 => *p.downcast::<u64>().unwrap() == 1234567,
                _ => *p.downcast::<[u8; 100]>().unwrap() == [7u8; 100],
            };
            assert!(ok, "payload {kind} changed");
            assert!(co.done());
        }
    }

    // -------------------------------------------------------- forced unwinding
    struct Bomb(Option<Box<dyn FnOnce()>>);
    impl Drop for Bomb {
        fn drop(&mut self) {
            (self.0.take().unwrap())()
        }
    }

    /// live objects at every suspension point are dropped once, in order, before the call returns
    pub fn forced_plain() {
        for at in 0..4u32 {
            for how in 0..3 {
                let st = TStack::new(131072);
                let drops = st.drops.clone();
                let d2 = drops.clone();
                let ids = Rc::new(RefCell::new(Vec::new()));
                let i2 = ids.clone();
                let mut co = Coroutine::<Tok, Tok, Tok, TStack>::with_stack(st, move |y, mut i| {
                    let a = Tok::new();
                    let _b = Bomb(Some(Box::new(move || {
                        assert_eq!(d2.get(), 0, "stack released before its objects");
                        log("b")
                    })));
                    i2.borrow_mut().push(a.0);
                    for _ in 0..10 {
                        let c = Tok::new();
                        i2.borrow_mut().push(c.0);
                        i = y.suspend(i);
                        drop(c);
                    }
                    i
                });
                for _ in 0..=at {
                    co.resume(Tok::new());
                }
                assert!(ids.borrow().len() as u32 == at + 2);
                logged();
                match how {
                    0 => {
                        co.force_unwind();
                        assert!(co.done() && co.started());
                        assert!(live_toks().is_empty());
                        assert_eq!(logged(), ["b"]);
                        co.force_unwind();
                        assert_eq!(drops.get(), 0);
                        drop(co);
                    }
                    1 => drop(co),
                    _ => assert!(catch_unwind(AssertUnwindSafe(|| co.into_stack())).is_err()),
                }
                assert_eq!(drops.get(), 1);
                assert!(live_toks().is_empty(), "objects on the coroutine's stack were leaked");
                if how > 0 {
                    assert_eq!(logged(), ["b"]);
                }
            }
        }
    }

    /// reactions of the body to a forced unwind
    pub fn forced_reactions() {
        for at in 1..3u32 {
            // swallowed, then the coroutine returns a value
            let mut co = Coroutine::<(), Tok, Tok, TStack>::with_stack(TStack::new(131072), move |y, _| {
                for _ in 0..5 {
                    if catch_unwind(AssertUnwindSafe(|| y.suspend(Tok::new()))).is_err() {
                        return Tok::new();
                    }
                }
                unreachable!()
            });
            for _ in 0..at {
                co.resume(());
            }
            assert!(catch_unwind(AssertUnwindSafe(|| co.force_unwind())).is_err(), "a swallowed forced unwind must be reported");
            assert!(co.done());
            co.force_unwind();
            assert!(live_toks().is_empty(), "value leaked");
            drop(co);

            // swallowed, then it suspends again
            let mut co = Coroutine::<(), Tok, Tok, TStack>::with_stack(TStack::new(131072), move |y, _| {
                for _ in 0..5 {
                    let _ = catch_unwind(AssertUnwindSafe(|| y.suspend(Tok::new())));
                }
                y.suspend(Tok::new());
                Tok::new()
            });
            for _ in 0..at {
                co.resume(());
            }
            assert!(catch_unwind(AssertUnwindSafe(|| co.force_unwind())).is_err());
            assert!(!co.done());
            assert!(live_toks().is_empty(), "value leaked");
            assert!(co.resume(()).as_yield().is_some());
            while co.resume(()).as_return().is_none() {}
            assert!(co.done() && live_toks().is_empty());
            drop(co);

            // replaced by another panic
            let mut co = Coroutine::<(), (), (), TStack>::with_stack(TStack::new(131072), move |y, _| loop {
                if let Err(_e) = catch_unwind(AssertUnwindSafe(|| y.suspend(()))) {
                    resume_unwind(Box::new(42u8));
                }
            });
            for _ in 0..at {
                co.resume(());
            }
            let e = catch_unwind(AssertUnwindSafe(|| co.force_unwind())).err().expect("the other panic was swallowed");
            assert_eq!(e.downcast_ref::<u8>(), Some(&42));
            assert!(co.done());
            co.force_unwind();
            drop(co);
        }
    }

    /// one coroutine's forced unwind escaping through another coroutine
    pub fn forced_foreign() {
        let stolen: Rc<RefCell<Option<Box<dyn std::any::Any + Send>>>> = Default::default();
        let s2 = stolen.clone();
        let mut a = Co::with_stack(TStack::new(131072), move |y, i| {
            let s3 = s2.clone();
            let mut b = Co::with_stack(TStack::new(131072), move |y, i| match catch_unwind(AssertUnwindSafe(|| y.suspend(i))) {
                Err(e) => {
                    *s3.borrow_mut() = Some(e);
                    resume_unwind(Box::new(1u8))
                }
                Ok(v) => v,
            });
            b.resume(1);
            let r = catch_unwind(AssertUnwindSafe(|| y.suspend(i)));
            assert!(r.is_err());
            let e = catch_unwind(AssertUnwindSafe(|| b.force_unwind()));
            assert_eq!(e.err().unwrap().downcast_ref::<u8>(), Some(&1));
            drop(b);
            // b's payload in place of our own
            resume_unwind(s2.borrow_mut().take().unwrap());
        });
        a.resume(0);
        let e = catch_unwind(AssertUnwindSafe(|| a.force_unwind()));
        assert!(e.is_err(), "another coroutine's forced unwind was taken for this one's");
        assert!(a.done());

        // children owned by a coroutine are unwound with it
        for depth in 1..4 {
            fn make(depth: u32) -> Co {
                Co::with_stack(TStack::new(131072), move |y, i| {
                    let _t = Tok::new();
                    let mut c = if depth > 1 { Some(make(depth - 1)) } else { None };
                    if let Some(c) = &mut c {
                        c.resume(1);
                    }
                    let _t2 = Tok::new();
                    y.suspend(i);
                    7
                })
            }
            let mut a = make(depth);
            a.resume(0);
            assert_eq!(live_toks().len() as u32, 2 * depth);
            if depth & 1 == 0 {
                a.force_unwind();
                assert!(live_toks().is_empty());
            }
            drop(a);
            assert!(live_toks().is_empty());
        }
    }

    /// destructors that panic
    pub fn panicking_destructors() {
        // destructor of the closure of an unstarted coroutine
        struct P(Tok);
        impl Drop for P {
            fn drop(&mut self) {
                self.0.check();
                resume_unwind(Box::new(9u8));
            }
        }
        let st = TStack::new(65536);
        let drops = st.drops.clone();
        let p = P(Tok::new());
        let mut co = Co::with_stack(st, move |_, i| {
            let _x = &p;
            i
        });
        let e = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
        assert_eq!(e.err().unwrap().downcast_ref::<u8>(), Some(&9));
        assert!(co.done());
        assert!(live_toks().is_empty());
        co.force_unwind();
        assert!(catch_unwind(AssertUnwindSafe(|| co.resume(1))).is_err());
        drop(co);
        assert_eq!(drops.get(), 1);
        // the same in Drop aborts
        let e = child(|| {
            let p = P(Tok::new());
            let co = Co::with_stack(TStack::new(65536), move |_, i| {
                let _x = &p;
                i
            });
            let _ = catch_unwind(AssertUnwindSafe(|| drop(co)));
        });
        assert!(matches!(e, Exit::Signal(libc::SIGABRT)), "dropping with a panicking destructor: {e:?}");
        // destructor of the stack
        let mut st = TStack::new(65536);
        st.on_drop = Some(Box::new(|| resume_unwind(Box::new(5u8))));
        let t = Tok::new();
        let co = Co::with_stack(st, move |_, i| {
            t.check();
            i
        });
        let e = catch_unwind(AssertUnwindSafe(|| drop(co)));
        assert_eq!(e.err().unwrap().downcast_ref::<u8>(), Some(&5));
        assert!(live_toks().is_empty());
    }

    /// Drop of a coroutine whose body does not let itself be unwound aborts
    pub fn drop_aborts() {
        for kind in 0..3 {
            let f = shared();
            let e = child(|| {
                let mut co = Co::with_stack(TStack::new(131072), move |y, i| match catch_unwind(AssertUnwindSafe(|| y.suspend(i))) {
                    Err(_) if kind == 0 => 5,
                    Err(_) if kind == 1 => resume_unwind(Box::new(1u8)),
                    Err(_) => y.suspend(6),
                    Ok(v) => v,
                });
                co.resume(1);
                let _ = catch_unwind(AssertUnwindSafe(|| drop(co)));
                f[0].store(1, std::sync::atomic::Ordering::SeqCst);
            });
            assert!(matches!(e, Exit::Signal(libc::SIGABRT)), "kind {kind}: {e:?}");
            assert_eq!(f[0].load(std::sync::atomic::Ordering::SeqCst), 0);
        }
    }
}
#[cfg(feature = "unwind")]
pub use unw::*;

// ------------------------------------------------------------ without unwinding
#[cfg(not(feature = "unwind"))]
pub fn nounwind_aborts() {
    use std::sync::atomic::Ordering::SeqCst;
    // a panic at the root of a coroutine, an on_stack closure and an on_parent_stack closure
    for kind in 0..6 {
        let f = shared();
        let e = child(|| {
            let mut co = Co::with_stack(TStack::new(131072), move |y, i| {
                struct G(&'static [std::sync::atomic::AtomicU32; 16]);
                if kind == 0 {
                    panic!("boom");
                }
                y.suspend(i);
                match kind {
                    1 => panic!("boom"),
                    2 => {
                        let _ = catch_unwind(AssertUnwindSafe(|| on_stack(TStack::new(131072), || panic!("boom"))));
                        f[1].store(1, SeqCst);
                    }
                    3 => {
                        let _ = catch_unwind(AssertUnwindSafe(|| y.on_parent_stack(|| panic!("boom"))));
                        f[1].store(1, SeqCst);
                    }
                    4 => resume_unwind(Box::new(1u8)),
                    _ => std::panic::panic_any(5u8),
                }
                3
            });
            let _ = catch_unwind(AssertUnwindSafe(|| {
                co.resume(1);
                f[2].store(1, SeqCst);
                co.resume(2);
                f[0].store(1, SeqCst);
            }));
            f[0].store(1, SeqCst);
        });
        assert!(matches!(e, Exit::Signal(libc::SIGABRT)), "kind {kind}: {e:?}");
        assert_eq!(f[0].load(SeqCst), 0, "kind {kind}: control returned to the parent after a panic");
        assert_eq!(f[1].load(SeqCst), 0, "kind {kind}: control returned to the coroutine after a panic");
    }
    // dropping a suspended coroutine
    let f = shared();
    let e = child(|| {
        let mut st = TStack::new(131072);
        st.on_drop = Some(Box::new(move || f[0].store(1, SeqCst)));
        let mut co = Co::with_stack(st, move |y, i| {
            struct G(&'static [std::sync::atomic::AtomicU32; 16]);
            impl Drop for G {
                fn drop(&mut self) {
                    self.0[1].store(1, SeqCst);
                }
            }
            let _g = G(f);
            y.suspend(i)
        });
        co.resume(1);
        let _ = catch_unwind(AssertUnwindSafe(|| drop(co)));
        f[2].store(1, SeqCst);
    });
    assert!(matches!(e, Exit::Signal(libc::SIGABRT)), "drop of a suspended coroutine: {e:?}");
    for k in 0..3 {
        assert_eq!(f[k].load(SeqCst), 0, "flag {k}");
    }
    // refused force_unwind leaves it usable
    let mut co = Co::with_stack(TStack::new(131072), move |y, i| {
        let _t = Tok::new();
        y.suspend(i) + 1
    });
    co.resume(1);
    assert!(catch_unwind(AssertUnwindSafe(|| co.force_unwind())).is_err());
    assert!(!co.done() && co.started());
    assert_eq!(live_toks().len(), 1);
    assert_eq!(co.resume(4).as_return(), Some(5));
    assert!(live_toks().is_empty());
}

// ------------------------------------------------------------ the universe
struct Msg(u64, Tok, [u8; 24]);
impl Msg {
    fn new(id: u64) -> Msg {
        Msg(id, Tok::new(), [id as u8; 24])
    }
    fn check(self, id: u64) {
        self.1.check();
        assert_eq!(self.0, id, "another value arrived");
        assert_eq!(self.2, [id as u8; 24]);
    }
}
type UCo = Coroutine<Msg, Msg, Msg, TStack>;
#[derive(Default)]
struct Ghost {
    inp: u64,
    out: (u8, u64),
    forcing: bool,
}
struct Handle {
    co: UCo,
    g: Rc<RefCell<Ghost>>,
    drops: Rc<Cell<u32>>,
}
struct World {
    rng: RefCell<Rng>,
    pool: RefCell<Vec<Handle>>,
    seq: Cell<u64>,
    steps: Cell<u32>,
}
impl World {
    fn id(&self) -> u64 {
        self.seq.set(self.seq.get() + 1);
        self.seq.get()
    }
    fn r(&self, n: u64) -> u64 {
        self.rng.borrow_mut().below(n)
    }
}
struct Sendable<F>(F);
unsafe impl<F> Send for Sendable<F> {}
impl<F: FnOnce()> Sendable<F> {
    fn call(self) {
        (self.0)()
    }
}
const UNW: bool = cfg!(feature = "unwind");

fn spawn(w: &Rc<World>, depth: u32) {
    let g: Rc<RefCell<Ghost>> = Default::default();
    let st = TStack::with_offset(400_000, 16 * w.r(16) as usize);
    let drops = st.drops.clone();
    let (w2, g2) = (w.clone(), g.clone());
    let own = Tok::new();
    let co = UCo::with_stack(st, move |y, i| {
        let want = g2.borrow().inp;
        i.check(want);
        let _l = Tok::new();
        let r = catch_unwind(AssertUnwindSafe(|| act(&w2, depth, Some((y, &g2)))));
        own.check();
        match r {
            Ok(()) => {}
            Err(p) => {
                if !UNW {
                    fatal("panic without unwinding");
                }
                resume_unwind(p)
            }
        }
        let id = w2.id();
        g2.borrow_mut().out = (2, id);
        Msg::new(id)
    });
    w.pool.borrow_mut().push(Handle { co, g, drops });
}

fn resume(w: &Rc<World>, mut h: Handle) {
    let id = w.id();
    h.g.borrow_mut().inp = id;
    h.g.borrow_mut().out = (0, 0);
    let m = Msg::new(id);
    assert!(!h.co.done());
    let r = catch_unwind(AssertUnwindSafe(|| h.co.resume(m)));
    let out = h.g.borrow().out;
    match r {
        Ok(CoroutineResult::Yield(m)) => {
            assert_eq!(out.0, 1, "resume yields");
            m.check(out.1);
            assert!(!h.co.done());
            w.pool.borrow_mut().push(h);
        }
        Ok(CoroutineResult::Return(m)) => {
            assert_eq!(out.0, 2, "resume returns");
            m.check(out.1);
            assert!(h.co.done());
        }
        Err(p) => {
            assert_eq!(out.0, 3, "resume panics");
            let m = p.downcast::<Msg>().expect("another payload");
            m.check(out.1);
            assert!(h.co.done());
        }
    }
}

fn act(w: &Rc<World>, depth: u32, me: Option<(&Yielder<Msg, Msg>, &Rc<RefCell<Ghost>>)>) {
    let n = 1 + w.r(5);
    let keep = Tok::new();
    let canary = [w.id(); 12];
    for _ in 0..n {
        if w.steps.get() == 0 {
            return;
        }
        w.steps.set(w.steps.get() - 1);
        match w.r(12) {
            0 | 1 | 2 => {
                if let Some((y, g)) = me {
                    let id = w.id();
                    g.borrow_mut().out = (1, id);
                    let i = catch_unwind(AssertUnwindSafe(|| y.suspend(Msg::new(id))));
                    match i {
                        Ok(i) => {
                            assert!(!g.borrow().forcing);
                            let want = g.borrow().inp;
                            i.check(want);
                        }
                        Err(p) => {
                            if !g.borrow().forcing {
                                fatal("suspend panicked");
                            }
                            keep.check();
                            resume_unwind(p)
                        }
                    }
                }
            }
            3 | 4 => {
                if w.pool.borrow().len() < 6 && depth > 0 {
                    spawn(w, depth - 1);
                }
            }
            5 | 6 | 7 => {
                let n = w.pool.borrow().len();
                if n > 0 {
                    let k = w.r(n as u64) as usize;
                    let h = w.pool.borrow_mut().remove(k);
                    resume(w, h);
                }
            }
            8 => {
                let n = w.pool.borrow().len();
                if n > 0 {
                    let k = w.r(n as u64) as usize;
                    let mut h = w.pool.borrow_mut().remove(k);
                    if !UNW && h.co.started() {
                        w.pool.borrow_mut().push(h);
                        continue;
                    }
                    h.g.borrow_mut().forcing = true;
                    if w.r(2) == 0 {
                        h.co.force_unwind();
                        assert!(h.co.done());
                        assert_eq!(h.drops.get(), 0);
                    }
                    let d = h.drops.clone();
                    drop(h);
                    assert_eq!(d.get(), 1);
                }
            }
            9 => {
                if depth > 0 {
                    let st = TStack::with_offset(400_000, 16 * w.r(4) as usize);
                    let d = st.drops.clone();
                    let t = Tok::new();
                    let r = on_stack(st, || {
                        t.check();
                        act(w, depth - 1, me);
                        drop(t);
                        77u64
                    });
                    assert_eq!(r, 77);
                    assert_eq!(d.get(), 1);
                }
            }
            10 => {
                if let (Some((y, _)), true) = (me, depth > 0) {
                    let t = Tok::new();
                    let f = Sendable(|| {
                        t.check();
                        act(w, depth - 1, None);
                        drop(t);
                    });
                    y.on_parent_stack(move || f.call());
                }
            }
            _ => {
                if let (Some((_, g)), true) = (me, UNW && w.r(4) == 0) {
                    let id = w.id();
                    g.borrow_mut().out = (3, id);
                    resume_unwind(Box::new(Msg::new(id)));
                }
            }
        }
        keep.check();
        assert!(std::hint::black_box(&canary).iter().all(|x| *x == canary[0]));
    }
}

pub fn universe(from: u64, to: u64) {
    for seed in from..to {
        let w = Rc::new(World {
            rng: RefCell::new(Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1)),
            pool: Default::default(),
            seq: Cell::new(0),
            steps: Cell::new(120),
        });
        for _ in 0..10 {
            w.rng.borrow_mut().next();
        }
        for _ in 0..6 {
            act(&w, 3, None);
        }
        loop {
            let h = w.pool.borrow_mut().pop();
            let Some(mut h) = h else { break };
            if UNW {
                h.g.borrow_mut().forcing = true;
                h.co.force_unwind();
                assert!(h.co.done());
            } else if h.co.started() {
                w.steps.set(0);
                resume(&w, h);
            }
        }
        let l = live_toks();
        assert!(l.is_empty(), "seed {seed}: leaked {l:?}");
        REG.with(|r| r.borrow_mut().clear());
    }
}
