//! Values through resume / suspend / return, closures of many layouts.
use crate::util::*;
use corosensei::stack::{Stack, StackPointer};
use corosensei::*;
use std::fmt::Debug;
use std::num::NonZeroU8;

pub trait V: 'static {
    type Id: PartialEq + Debug;
    fn make(k: u64) -> Self;
    fn id(&self) -> Self::Id;
}
macro_rules! plain {
    ($($t:ty = |$k:ident| $e:expr),* $(,)?) => {$(
        impl V for $t {
            type Id = $t;
            fn make($k: u64) -> Self { $e }
            fn id(&self) -> $t { self.clone() }
        }
    )*};
}
plain! {
    () = |_k| (),
    u8 = |k| (k as u8) ^ 0x5a,
    u16 = |k| (k as u16) ^ 0x5a5a,
    u32 = |k| (k as u32) ^ 0x5a5a5a5a,
    u64 = |k| k ^ 0x5a5a5a5a_a5a5a5a5,
    usize = |k| (k as usize) ^ 0x5a5a5a5a,
    u128 = |k| (k as u128) << 64 | 0x1234_5678_9abc_def0_1122_3344,
    bool = |k| k & 1 == 1,
    char = |k| char::from_u32(0x4e00 + (k as u32 & 0xff)).unwrap(),
    f32 = |k| k as f32 + 0.5,
    f64 = |k| k as f64 + 0.25,
    (u32, u64) = |k| (k as u32, !k),
    (u64, u64) = |k| (k, !k),
    (u64, u8) = |k| (k, 7),
    Option<u8> = |k| if k & 1 == 0 { None } else { Some(k as u8) },
    Option<NonZeroU8> = |k| NonZeroU8::new(k as u8 & 3),
    Option<&'static u32> = |k| if k & 1 == 0 { None } else { Some(&77) },
    Option<Option<bool>> = |k| match k % 4 { 0 => None, 1 => Some(None), 2 => Some(Some(false)), _ => Some(Some(true)) },
    Result<u8, u64> = |k| if k & 1 == 0 { Ok(k as u8) } else { Err(!k) },
    String = |k| format!("value {k} with some text that is on the heap"),
    Vec<u8> = |k| vec![k as u8; 100 + k as usize % 7],
    Box<u64> = |k| Box::new(!k),
    Option<Box<u64>> = |k| if k & 1 == 0 { None } else { Some(Box::new(!k)) },
    Result<Box<u8>, Box<u64>> = |k| if k & 1 == 0 { Ok(Box::new(k as u8)) } else { Err(Box::new(!k)) },
}
impl<const N: usize> V for [u8; N] {
    type Id = Vec<u8>;
    fn make(k: u64) -> Self {
        let mut a = [0; N];
        for (i, b) in a.iter_mut().enumerate() {
            *b = (k as u8).wrapping_mul(31).wrapping_add(i as u8).wrapping_mul(167) ^ 0x3c;
        }
        a
    }
    fn id(&self) -> Vec<u8> {
        self.to_vec()
    }
}
macro_rules! aligned {
    ($($n:ident $a:literal),*) => {$(
        #[repr(align($a))]
        pub struct $n<const N: usize>([u8; N]);
        impl<const N: usize> V for $n<N> {
            type Id = (usize, Vec<u8>);
            fn make(k: u64) -> Self { $n(<[u8; N]>::make(k)) }
            fn id(&self) -> (usize, Vec<u8>) {
                (std::hint::black_box(self) as *const Self as usize % $a, self.0.to_vec())
            }
        }
    )*};
}
aligned!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64, A128 128, A256 256, A512 512, A1024 1024, A2048 2048, A4096 4096);
impl V for Tok {
    type Id = usize;
    fn make(_k: u64) -> Self {
        Tok::new()
    }
    fn id(&self) -> usize {
        self.check();
        self.0
    }
}
pub struct Fat<const N: usize>(Tok, [u8; N]);
impl<const N: usize> V for Fat<N> {
    type Id = (usize, Vec<u8>);
    fn make(k: u64) -> Self {
        Fat(Tok::new(), <[u8; N]>::make(k))
    }
    fn id(&self) -> Self::Id {
        (self.0.id(), self.1.to_vec())
    }
}
impl V for Option<Tok> {
    type Id = Option<usize>;
    fn make(k: u64) -> Self {
        if k & 1 == 0 {
            None
        } else {
            Some(Tok::new())
        }
    }
    fn id(&self) -> Option<usize> {
        self.as_ref().map(|t| t.id())
    }
}

/// n suspends with every kind of value, checked on both sides
pub fn transfer<I: V, Y: V, R: V>() {
    for n in 0..4u64 {
        let st = TStack::new(400_000);
        let pr = st.probe();
        // make() may create a token: build the expected identity from the value itself
        let ids_in = std::rc::Rc::new(std::cell::RefCell::new(Vec::<I::Id>::new()));
        let ids_y = std::rc::Rc::new(std::cell::RefCell::new(Vec::<Y::Id>::new()));
        let ids_r = std::rc::Rc::new(std::cell::RefCell::new(Vec::<R::Id>::new()));
        let (a, b, c) = (ids_in.clone(), ids_y.clone(), ids_r.clone());
        {
            let mut co = Coroutine::<I, Y, R, TStack>::with_stack(st, move |y, i| {
                assert_eq!(a.borrow_mut().remove(0), i.id(), "first input");
                drop(i);
                for k in 0..n {
                    let v = Y::make(k + 3);
                    b.borrow_mut().push(v.id());
                    let i = y.suspend(v);
                    assert_eq!(a.borrow_mut().remove(0), i.id(), "later input");
                }
                let r = R::make(n + 9);
                c.borrow_mut().push(r.id());
                r
            });
            for k in 0..=n {
                let i = I::make(k * 3 + n);
                ids_in.borrow_mut().push(i.id());
                match co.resume(i) {
                    CoroutineResult::Yield(v) => {
                        assert!(k < n, "yielded too often");
                        assert_eq!(ids_y.borrow_mut().remove(0), v.id(), "yielded value");
                    }
                    CoroutineResult::Return(v) => {
                        assert!(k == n, "returned too early");
                        assert_eq!(ids_r.borrow_mut().remove(0), v.id(), "returned value");
                    }
                }
                assert!(ids_in.borrow().is_empty() && ids_y.borrow().is_empty() && ids_r.borrow().is_empty());
                assert_eq!(co.done(), k == n);
                assert!(co.started());
                pr.check();
            }
        }
        assert_eq!(live_toks(), Vec::<usize>::new(), "values leaked");
    }
}

macro_rules! for_types {
    ($m:ident) => {
        $m!(()); $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(usize); $m!(u128); $m!(bool); $m!(char); $m!(f32); $m!(f64);
        $m!((u32, u64)); $m!((u64, u64)); $m!((u64, u8)); $m!(Option<u8>); $m!(Option<NonZeroU8>); $m!(Option<&'static u32>);
        $m!(Option<Option<bool>>); $m!(Result<u8, u64>); $m!(String); $m!(Vec<u8>); $m!(Box<u64>); $m!(Option<Box<u64>>);
        $m!(Result<Box<u8>, Box<u64>>);
        $m!([u8; 1]); $m!([u8; 2]); $m!([u8; 3]); $m!([u8; 4]); $m!([u8; 5]); $m!([u8; 6]); $m!([u8; 7]); $m!([u8; 8]); $m!([u8; 9]);
        $m!([u8; 11]); $m!([u8; 12]); $m!([u8; 13]); $m!([u8; 15]); $m!([u8; 16]); $m!([u8; 17]); $m!([u8; 24]); $m!([u8; 31]);
        $m!([u8; 32]); $m!([u8; 33]); $m!([u8; 64]); $m!([u8; 255]); $m!([u8; 1000]);
        $m!(A2<1>); $m!(A4<3>); $m!(A8<1>); $m!(A8<8>); $m!(A16<0>); $m!(A16<1>); $m!(A16<16>); $m!(A32<0>); $m!(A32<5>); $m!(A64<1>); $m!(A128<3>); $m!(A4096<1>);
        $m!(Tok); $m!(Option<Tok>); $m!(Fat<0>); $m!(Fat<1>); $m!(Fat<8>); $m!(Fat<40>);
    };
}

pub fn values_same() {
    macro_rules! one {
        ($t:ty) => {
            transfer::<$t, $t, $t>();
        };
    }
    for_types!(one);
}
pub fn values_in() {
    macro_rules! one {
        ($t:ty) => {
            transfer::<$t, (), Tok>();
        };
    }
    for_types!(one);
}
pub fn values_yield() {
    macro_rules! one {
        ($t:ty) => {
            transfer::<Tok, $t, ()>();
        };
    }
    for_types!(one);
}
pub fn values_return() {
    macro_rules! one {
        ($t:ty) => {
            transfer::<(), Tok, $t>();
            transfer::<u64, String, $t>();
        };
    }
    for_types!(one);
}

pub fn accessors() {
    let t = || Tok::new();
    let a: CoroutineResult<Tok, u8> = CoroutineResult::Yield(t());
    assert!(a.as_yield().is_some());
    let a: CoroutineResult<Tok, u8> = CoroutineResult::Yield(t());
    assert!(a.as_return().is_none());
    let a: CoroutineResult<u8, Tok> = CoroutineResult::Return(t());
    assert!(a.as_return().is_some());
    let a: CoroutineResult<u8, Tok> = CoroutineResult::Return(t());
    assert!(a.as_yield().is_none());
    assert_eq!(CoroutineResult::<u8, u8>::Yield(3).as_yield(), Some(3));
    assert_eq!(CoroutineResult::<u8, u8>::Return(4).as_return(), Some(4));
    assert!(live_toks().is_empty());
}

/// a closure of the given layout on a stack with the given placement
fn closure<P: V>(size: usize, off: usize) {
    for act in 0..3 {
        let mut st = TStack::with_offset(size, off);
        let pr = st.probe();
        let base = st.base;
        let drops = st.drops.clone();
        let p = P::make(5);
        let want = p.id();
        let tok = Tok::new();
        let tid = tok.0;
        let ran = std::rc::Rc::new(std::cell::Cell::new(0));
        let ran2 = ran.clone();
        st.on_drop = Some(Box::new(move || assert_eq!(state(tid), 2, "stack released before the closure was dropped")));
        let f = move |_: &Yielder<u8, u8>, i: u8| {
            ran2.set(ran2.get() + 1);
            let s = sp();
            assert!(pr.contains(s), "closure runs at {s:#x}, outside its stack");
            tok.check();
            let g = p.id();
            drop(tok);
            (g, i)
        };
        let refused = std::mem::size_of_val(&f) > 1024 || std::mem::align_of_val(&f) > 1024;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Coroutine::<u8, u8, (P::Id, u8), TStack>::with_stack(st, f)));
        match r {
            Err(_) => {
                assert!(refused, "closure of {} bytes refused", std::mem::size_of::<P>());
                assert_eq!(state(tid), 2, "refused closure leaked");
                assert_eq!(drops.get(), 1, "stack of a refused coroutine leaked");
                continue;
            }
            Ok(mut co) => {
                assert!(!refused, "closure must be refused");
                pr.check();
                assert!(!co.started() && !co.done());
                match act {
                    0 => {
                        let r = co.resume(9).as_return().expect("returns");
                        assert_eq!(r.0, want);
                        assert_eq!(r.1, 9);
                        assert_eq!(ran.get(), 1);
                        assert!(co.done());
                    }
                    1 => {
                        co.force_unwind();
                        assert_eq!(state(tid), 2);
                        assert_eq!(ran.get(), 0);
                        assert!(co.done());
                        co.force_unwind();
                    }
                    _ => {}
                }
                pr.check();
                drop(co);
                assert_eq!(state(tid), 2, "closure leaked");
                assert_eq!(drops.get(), 1);
                assert_eq!(ran.get(), if act == 0 { 1 } else { 0 });
            }
        }
        let _ = base;
    }
}

pub fn closures() {
    macro_rules! one {
        ($t:ty) => {
            for off in [0, 16, 32, 48, 64, 112, 128, 256, 512, 1008, 1024, 2032, 2048] {
                closure::<$t>(65536, off);
            }
        };
    }
    for_types!(one);
    one!([u8; 500]);
    one!([u8; 900]);
    one!([u8; 990]);
    one!([u8; 1004]);
    one!([u8; 1008]);
    one!([u8; 1012]);
    one!([u8; 1016]);
    one!([u8; 1024]);
    one!([u8; 1025]);
    one!([u8; 1100]);
    one!([u8; 5000]);
    one!(A256<1>);
    one!(A512<1>);
    one!(A1024<1>);
    one!(A2048<1>);
    one!(A4096<0>);
}

/// zero-sized over-aligned closures, non-capturing closures, exact limits, the minimum stack
pub fn closures_exact() {
    fn exact<const N: usize>(ok: bool) {
        let arr = [0x77u8; N];
        for size in [corosensei::stack::MIN_STACK_SIZE.min(4096), 65536] {
        let st = TStack::new(size);
        let pr = st.probe();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            Coroutine::<u8, u8, u8, TStack>::with_stack(st, move |_, i| {
                let s: u64 = arr.iter().map(|x| *x as u64).sum();
                assert_eq!(s, 0x77 * N as u64);
                i
            })
        }));
        assert_eq!(r.is_ok(), ok, "closure of {N} bytes");
        if let Ok(mut co) = r {
            pr.check();
            if size > 8192 {
                assert_eq!(co.resume(3).as_return(), Some(3));
            }
            pr.check();
        }
        }
    }
    exact::<0>(true);
    exact::<1>(true);
    exact::<1000>(true);
    exact::<1023>(true);
    exact::<1024>(true);
    exact::<1025>(false);
    exact::<1040>(false);
    exact::<2048>(false);
    exact::<4096>(false);
    exact::<100000>(false);
    let mut co = Coroutine::<u8, u8, u8, TStack>::with_stack(TStack::new(4096), |y, i| y.suspend(i));
    assert_eq!(co.resume(1).as_yield(), Some(1));
    assert_eq!(co.resume(2).as_return(), Some(2));
}

/// alignment of a captured value inside the closure, observed by its address
pub fn closures_alignment() {
    macro_rules! one {
        ($($a:ident $n:literal),*) => {$(
            for off in (0..64usize).map(|x| x * 16) {
                let v = $a([1u8; 1]);
                let st = TStack::with_offset(8192, off);
                let pr = st.probe();
                struct D<const N: usize>($a<N>, Probe);
                impl<const N: usize> Drop for D<N> {
                    fn drop(&mut self) {
                        let p = std::hint::black_box(self as *const Self as usize);
                        if p % $n != 0 { fatal(&format!("captured value at {p:#x} misaligned")); }
                        log(format!("{}", self.1.contains(p)));
                    }
                }
                let d = D(v, pr);
                let co = Coroutine::<(), (), (), TStack>::with_stack(st, move |_, _| { std::hint::black_box(&d); });
                logged();
                drop(co);
                assert_eq!(logged(), ["true"], "closure dropped outside the stack or not once");
            }
        )*};
    }
    one!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64, A128 128, A256 256, A512 512);
}

pub fn ref_stack() {
    let mut st = TStack::new(8192);
    let (b, l) = (st.base(), st.limit());
    {
        let r: &mut TStack = &mut st;
        assert_eq!(<&mut TStack as Stack>::base(&r), b);
        assert_eq!(<&mut TStack as Stack>::limit(&r), l);
        let mut co = Coroutine::<u8, u8, u8, &mut TStack>::with_stack(r, |y, i| y.suspend(i + 1) + 1);
        assert_eq!(co.resume(1).as_yield(), Some(2));
        let th = co.trap_handler();
        assert!(th.stack_ptr_in_bounds(l.get()) && !th.stack_ptr_in_bounds(b.get()));
        assert_eq!(co.resume(5).as_return(), Some(6));
    }
    st.check_canaries();
}

// ------------------------------------------------------------ stack types of any layout
std::thread_local! {
    static ZST: std::cell::RefCell<Option<TStack>> = const { std::cell::RefCell::new(None) };
    static GONE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub trait Shape {
    fn make(size: usize) -> Self;
}
/// zero-sized: the memory is found through the thread
pub struct Zst;
impl Shape for Zst {
    fn make(size: usize) -> Self {
        ZST.with(|z| *z.borrow_mut() = Some(TStack::new(size)));
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        GONE.with(|g| g.set(g.get() + 1));
    }
}
unsafe impl Stack for Zst {
    fn base(&self) -> StackPointer {
        ZST.with(|z| z.borrow().as_ref().unwrap().base())
    }
    fn limit(&self) -> StackPointer {
        ZST.with(|z| z.borrow().as_ref().unwrap().limit())
    }
}
#[repr(align(128))]
pub struct Wide<const N: usize>([u8; N], TStack);
impl<const N: usize> Shape for Wide<N> {
    fn make(size: usize) -> Self {
        Wide([0x4b; N], TStack::new(size))
    }
}
impl<const N: usize> Drop for Wide<N> {
    fn drop(&mut self) {
        assert_eq!(self.0, [0x4b; N], "the stack object is damaged");
        assert_eq!(self as *mut _ as usize % 128, 0);
        GONE.with(|g| g.set(g.get() + 1));
    }
}
unsafe impl<const N: usize> Stack for Wide<N> {
    fn base(&self) -> StackPointer {
        assert_eq!(self.0, [0x4b; N], "the stack object is damaged");
        self.1.base()
    }
    fn limit(&self) -> StackPointer {
        self.1.limit()
    }
}
fn stack_type<S: Stack + Shape + 'static>() {
    let gone = || GONE.with(|g| g.replace(0));
    gone();
    for resumes in 0..3u8 {
        let make = || {
            let mut co = Coroutine::<u8, u8, u8, S>::with_stack(S::make(16384), |y, i| y.suspend(i + 1) + 1);
            for k in 0..resumes {
                co.resume(k);
            }
            co
        };
        let suspended = resumes == 1;
        if !suspended || cfg!(feature = "unwind") {
            drop(make());
            assert_eq!(gone(), 1, "stack of a dropped coroutine ({resumes} resumes)");
        }
        if resumes == 2 {
            let s = make().into_stack();
            assert_eq!(gone(), 0, "into_stack drops the stack");
            let (b, l) = (s.base(), s.limit());
            assert!(b > l);
            let mut co = Coroutine::<u8, u8, u8, S>::with_stack(s, |y, i| y.suspend(i + 1) + 1);
            assert_eq!(co.resume(3).as_yield(), Some(4));
            assert_eq!(co.resume(3).as_return(), Some(4));
            drop(co);
            assert_eq!(gone(), 1, "reused stack");
        } else if !suspended || cfg!(feature = "unwind") {
            let co = make();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::mem::forget(co.into_stack())));
            assert!(r.is_err());
            assert_eq!(gone(), 1, "refused into_stack ({resumes} resumes)");
        }
        let mut co = make();
        unsafe { co.force_reset() };
        let s = co.into_stack();
        assert_eq!(gone(), 0);
        drop(s);
        assert_eq!(gone(), 1, "after force_reset");
    }
    assert_eq!(corosensei::on_stack(S::make(16384), || 5), 5);
    assert_eq!(gone(), 1, "on_stack");
}
pub fn stack_types() {
    stack_type::<Zst>();
    stack_type::<Wide<0>>();
    stack_type::<Wide<1>>();
    stack_type::<Wide<700>>();
}
