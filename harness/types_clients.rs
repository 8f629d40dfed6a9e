// Client programs. Each section is compiled twice: with the lines marked `//+` (must be accepted)
// and with the lines marked `//-` instead (must be rejected with one of the listed errors).
// A section without `//-` lines must simply be accepted. Generic parameters are universally
// quantified: acceptance or rejection holds for every instantiation.

//# shared-coroutine-needs-shareable-stack E0277
fn sync<T: Sync>() {}
fn f<I, Y, R, S: Stack + Sync>() { sync::<Coroutine<I, Y, R, S>>() } //+
fn f<I: Sync, Y: Sync, R: Sync, S: Stack + Send>() { sync::<Coroutine<I, Y, R, S>>() } //-

//# coroutine-cannot-be-sent E0277
fn send<T: Send>(_: T) {}
fn f<I: Send + Sync, Y: Send + Sync, R: Send + Sync, S: Stack + Send + Sync>(_c: Coroutine<I, Y, R, S>) {} //+
fn f<I: Send + Sync, Y: Send + Sync, R: Send + Sync, S: Stack + Send + Sync>(c: Coroutine<I, Y, R, S>) { send(c) } //-

//# coroutine-mut-ref-cannot-be-sent E0277
fn send<T: Send>(_: T) {}
fn f<I: Send + Sync, Y: Send + Sync, R: Send + Sync, S: Stack + Send + Sync>(_c: &mut Coroutine<I, Y, R, S>) {} //+
fn f<I: Send + Sync, Y: Send + Sync, R: Send + Sync, S: Stack + Send + Sync>(c: &mut Coroutine<I, Y, R, S>) { send(c) } //-

//# coroutine-not-sent-to-a-thread E0277
fn f() {
    let mut c: Coroutine<(), (), ()> = Coroutine::new(|_, ()| ());
    c.resume(()); //+
    std::thread::spawn(move || { c.resume(()); }); //-
}

//# yielder-not-sent-to-a-thread E0277
fn f() {
    let _c: Coroutine<(), (), ()> = Coroutine::new(|y, ()| {
        y.suspend(()); //+
        std::thread::scope(|s| { s.spawn(|| y.suspend(())); }); //-
    });
}

//# yielder-reference-not-sent E0277
fn send<T: Send>(_: T) {}
fn f<I: Send + Sync, Y: Send + Sync>(_y: &Yielder<I, Y>) {} //+
fn f<I: Send + Sync, Y: Send + Sync>(y: &Yielder<I, Y>) { send(y) } //-

//# yielder-cannot-be-shared E0277
fn sync<T: Sync + ?Sized>(_: &T) {}
fn f<I: Send + Sync, Y: Send + Sync>(_y: &Yielder<I, Y>) {} //+
fn f<I: Send + Sync, Y: Send + Sync>(y: &Yielder<I, Y>) { sync(y) } //-

//# shared-coroutine-cannot-be-resumed E0596
fn f<Y, R, S: Stack>(c: &mut Coroutine<(), Y, R, S>) { //+
fn f<Y, R, S: Stack>(c: &Coroutine<(), Y, R, S>) { //-
    c.resume(());
}

//# shared-coroutine-cannot-be-unwound E0596
fn f<Y, R, S: Stack>(c: &mut Coroutine<(), Y, R, S>) { //+
fn f<Y, R, S: Stack>(c: &Coroutine<(), Y, R, S>) { //-
    c.force_unwind();
}

//# shared-coroutine-cannot-be-reset E0596
unsafe fn f<Y, R, S: Stack>(c: &mut Coroutine<(), Y, R, S>) { //+
unsafe fn f<Y, R, S: Stack>(c: &Coroutine<(), Y, R, S>) { //-
    c.force_reset();
}

//# stack-cannot-be-taken-from-a-reference E0507
fn f<Y, R, S: Stack>(c: Coroutine<(), Y, R, S>) -> S { //+
fn f<Y, R, S: Stack>(c: &mut Coroutine<(), Y, R, S>) -> S { //-
    c.into_stack()  //+
    (*c).into_stack()  //-
}

//# closure-must-be-static E0310
fn f<S: Stack, F: FnOnce(&Yielder<(), ()>, ()) + 'static>(s: S, f: F) { //+
fn f<S: Stack, F: FnOnce(&Yielder<(), ()>, ())>(s: S, f: F) { //-
    Coroutine::<(), (), (), S>::with_stack(s, f);
}

//# input-must-be-static E0310
fn f<T: 'static, S: Stack>(s: S) { //+
fn f<T, S: Stack>(s: S) { //-
    Coroutine::<T, (), (), S>::with_stack(s, |_, _| ());
}

//# yield-must-be-static E0310
fn f<T: 'static, S: Stack>(s: S) { //+
fn f<T, S: Stack>(s: S) { //-
    Coroutine::<(), T, (), S>::with_stack(s, |_, _| ());
}

//# return-must-be-static E0310
fn f<T: 'static, S: Stack>(s: S, t: fn() -> T) { //+
fn f<T, S: Stack>(s: S, t: fn() -> T) { //-
    let _ = Coroutine::<(), (), T, S>::with_stack(s, |_, _| loop {});
    let _ = t;
}

//# closure-must-be-static-default-stack E0310
fn f<F: FnOnce(&Yielder<(), ()>, ()) + 'static>(f: F) { //+
fn f<F: FnOnce(&Yielder<(), ()>, ())>(f: F) { //-
    Coroutine::<(), (), ()>::new(f);
}

//# input-must-be-static-default-stack E0310
fn f<T: 'static>() { //+
fn f<T>() { //-
    Coroutine::<T, (), ()>::new(|_, _| ());
}

//# yield-must-be-static-default-stack E0310
fn f<T: 'static>() { //+
fn f<T>() { //-
    Coroutine::<(), T, ()>::new(|_, _| ());
}

//# return-must-be-static-default-stack E0310
fn f<T: 'static>() { //+
fn f<T>() { //-
    Coroutine::<(), (), T>::new(|_, _| loop {});
}

//# closure-cannot-borrow-a-local E0373 E0597
fn f() -> Coroutine<(), (), ()> {
    let v = vec![1];
    Coroutine::new(move |_, ()| { drop(v) }) //+
    Coroutine::new(|_, ()| { println!("{:?}", v) }) //-
}

//# closure-cannot-capture-a-short-reference E0597
fn f() {
    let mut c: Coroutine<(), (), ()>;
    {
        let v = vec![1];
        let r = v.clone(); //+
        let r = &v; //-
        c = Coroutine::new(move |_, ()| { println!("{:?}", r) });
    }
    c.resume(());
}

//# input-cannot-die-before-the-coroutine E0597 lifetime
fn f() {
    let mut c = Coroutine::<&u32, (), ()>::new(|y, mut i| loop { println!("{}", i); i = y.suspend(()); });
    {
        static V: u32 = 5; //+
        let V = 5u32; //-
        c.resume(&V);
    }
    c.resume(&7);
}

//# variance-contravariant-input
fn f<'s, 'l: 's, Y, R, S: Stack>(c: Coroutine<&'s u8, Y, R, S>) -> Coroutine<&'l u8, Y, R, S> { c }

//# variance-input-not-covariant lifetime
fn f<'s, 'l: 's, Y, R, S: Stack>(c: Coroutine<&'s u8, Y, R, S>) -> Coroutine<&'l u8, Y, R, S> { c } //+
fn f<'s, 'l: 's, Y, R, S: Stack>(c: Coroutine<&'l u8, Y, R, S>) -> Coroutine<&'s u8, Y, R, S> { c } //-

//# variance-covariant-yield
fn f<'s, 'l: 's, I, R, S: Stack>(c: Coroutine<I, &'l u8, R, S>) -> Coroutine<I, &'s u8, R, S> { c }

//# variance-yield-not-contravariant lifetime
fn f<'s, 'l: 's, I, R, S: Stack>(c: Coroutine<I, &'l u8, R, S>) -> Coroutine<I, &'s u8, R, S> { c } //+
fn f<'s, 'l: 's, I, R, S: Stack>(c: Coroutine<I, &'s u8, R, S>) -> Coroutine<I, &'l u8, R, S> { c } //-

//# variance-covariant-return
fn f<'s, 'l: 's, I, Y, S: Stack>(c: Coroutine<I, Y, &'l u8, S>) -> Coroutine<I, Y, &'s u8, S> { c }

//# variance-return-not-contravariant lifetime
fn f<'s, 'l: 's, I, Y, S: Stack>(c: Coroutine<I, Y, &'l u8, S>) -> Coroutine<I, Y, &'s u8, S> { c } //+
fn f<'s, 'l: 's, I, Y, S: Stack>(c: Coroutine<I, Y, &'s u8, S>) -> Coroutine<I, Y, &'l u8, S> { c } //-

//# variance-stack-not-contravariant lifetime
fn f<'s, 'l: 's, S: Stack>(c: Coroutine<(), (), (), &'l mut S>) -> Coroutine<(), (), (), &'s mut S> { c } //+
fn f<'s, 'l: 's, S: Stack>(c: Coroutine<(), (), (), &'s mut S>) -> Coroutine<(), (), (), &'l mut S> { c } //-

//# variance-yielder-input-not-contravariant lifetime
fn f<'a, 's, 'l: 's, Y>(y: &'a Yielder<&'l u8, Y>) -> &'a Yielder<&'l u8, Y> { y } //+
fn f<'a, 's, 'l: 's, Y>(y: &'a Yielder<&'s u8, Y>) -> &'a Yielder<&'l u8, Y> { y } //-

//# variance-yielder-yield-not-covariant lifetime
fn f<'a, 's, 'l: 's, I>(y: &'a Yielder<I, &'l u8>) -> &'a Yielder<I, &'l u8> { y } //+
fn f<'a, 's, 'l: 's, I>(y: &'a Yielder<I, &'l u8>) -> &'a Yielder<I, &'s u8> { y } //-

//# variance-trap-handler-return-not-covariant-wrongly lifetime
fn f<'s, 'l: 's>(c: CoroutineTrapHandler<&'l u8>) -> CoroutineTrapHandler<&'l u8> { c } //+
fn f<'s, 'l: 's>(c: CoroutineTrapHandler<&'l u8>) -> CoroutineTrapHandler<&'s u8> { c } //-

//# borrowed-stack-outlives-coroutine E0505
fn f<S: Stack>(mut s: S) {
    let c = Coroutine::<(), (), (), _>::with_stack(&mut s, |_, ()| ());
    drop(c); //+
    drop(s);
    drop(c); //-
}

//# borrowed-stack-used-once E0499
fn f<S: Stack>(mut s: S) {
    let c = Coroutine::<(), (), (), _>::with_stack(&mut s, |_, ()| ());
    drop(c); //+
    let d = Coroutine::<(), (), (), _>::with_stack(&mut s, |_, ()| ());
    drop(c); //-
    drop(d);
}

//# shared-stack-reference-is-not-a-stack E0277
fn stack<S: Stack>(_: S) {}
fn f<S: Stack + Sync>(s: &mut S) { stack(s) } //+
fn f<S: Stack + Sync>(s: &S) { stack(s) } //-

//# yielder-cannot-leave-the-closure lifetime E0521
fn f() {
    let _ = Coroutine::<(), (), ()>::new(|y, ()| {
        let _p = y as *const Yielder<(), ()>; //+
        let _p: &'static Yielder<(), ()> = y; //-
    });
}

//# yielder-cannot-be-returned lifetime E0308
fn f() {
    let _ = Coroutine::<(), (), usize>::new(|_y, ()| 1); //+
    let _ = Coroutine::<(), (), &'static Yielder<(), ()>>::new(|y, ()| y); //-
}

//# yielder-cannot-be-yielded lifetime E0521 E0308
fn f() {
    let _ = Coroutine::<(), usize, ()>::new(|y, ()| { y.suspend(1); }); //+
    let _ = Coroutine::<(), &'static Yielder<(), ()>, ()>::new(|y, ()| { let z: &Yielder<(), &'static Yielder<(), ()>> = y; y.suspend(unsafe_id(z)); }); //-
}
fn unsafe_id<'a>(y: &'a Yielder<(), &'static Yielder<(), ()>>) -> &'a Yielder<(), ()> { loop { let _ = y; } }

//# yielder-closure-is-higher-ranked E0308 E0277 lifetime
fn f<S: Stack, F: FnOnce(&Yielder<(), ()>, ()) + 'static>(s: S, f: F) { //+
fn f<S: Stack, F: FnOnce(&'static Yielder<(), ()>, ()) + 'static>(s: S, f: F) { //-
    Coroutine::<(), (), (), S>::with_stack(s, f);
}

//# parent-stack-closure-must-be-send E0277
fn f<F: FnOnce() -> R + Send, R>(y: &Yielder<(), ()>, f: F) -> R { //+
fn f<F: FnOnce() -> R, R>(y: &Yielder<(), ()>, f: F) -> R { //-
    y.on_parent_stack(f)
}

//# parent-stack-closure-cannot-suspend E0277
fn f() {
    let _ = Coroutine::<(), (), ()>::new(|y, ()| {
        y.on_parent_stack(|| ()); //+
        y.on_parent_stack(|| y.suspend(())); //-
    });
}

//# parent-stack-closure-cannot-touch-the-coroutine E0277
fn f(c: &mut Coroutine<(), (), ()>, y: &Yielder<(), ()>) {
    y.on_parent_stack(|| ()); //+
    y.on_parent_stack(|| c.resume(())); //-
    let _ = c; //+
}

//# parent-stack-closure-may-borrow
fn f(y: &Yielder<(), ()>) { let mut v = vec![1]; let r = y.on_parent_stack(|| { v.push(2); v.len() }); drop(v); let _ = r; }

//# on-stack-closure-may-borrow
fn f<S: Stack>(s: S) { let mut v = vec![1]; let r = on_stack(s, || { v.push(2); v.len() }); drop(v); let _ = r; }

//# stack-trait-is-unsafe E0200
struct S;
unsafe impl Stack for S { //+
impl Stack for S { //-
    fn base(&self) -> StackPointer { loop {} }
    fn limit(&self) -> StackPointer { loop {} }
}

//# not-every-type-is-a-stack E0277
fn stack<S: Stack>() {}
fn f<T: Stack>() { stack::<T>() } //+
fn f<T: Send + Sync + Copy + Default + 'static>() { stack::<T>() } //-

//# box-is-not-a-stack E0277
fn stack<S: Stack>() {}
fn f() { stack::<&mut DefaultStack>() } //+
fn f() { stack::<[u8; 65536]>() } //-

//# with-stack-needs-a-stack E0277
fn f<T: Stack>(t: T) { Coroutine::<(), (), (), T>::with_stack(t, |_, ()| ()); } //+
fn f<T: Send + 'static>(t: T) { Coroutine::<(), (), (), T>::with_stack(t, |_, ()| ()); } //-

//# on-stack-needs-a-stack E0277
fn f<T: Stack>(t: T) { on_stack(t, || ()) } //+
fn f<T: Send + 'static>(t: T) { on_stack(t, || ()) } //-

//# force-reset-is-unsafe E0133
fn f<S: Stack>(c: &mut Coroutine<(), (), (), S>) { unsafe { c.force_reset() } } //+
fn f<S: Stack>(c: &mut Coroutine<(), (), (), S>) { c.force_reset() } //-

//# setup-trap-handler-is-unsafe E0133
fn f(c: &CoroutineTrapHandler<()>) { unsafe { c.setup_trap_handler(|| ()); } } //+
fn f(c: &CoroutineTrapHandler<()>) { c.setup_trap_handler(|| ()); } //-

//# trap-closure-must-be-static E0310
unsafe fn f<R, F: FnOnce() -> R + 'static>(c: &CoroutineTrapHandler<R>, f: F) { //+
unsafe fn f<R, F: FnOnce() -> R>(c: &CoroutineTrapHandler<R>, f: F) { //-
    c.setup_trap_handler(f);
}

//# trap-closure-returns-the-return-type E0271 E0308
unsafe fn f<R: 'static>(c: &CoroutineTrapHandler<R>, f: fn() -> R) { //+
unsafe fn f<R: 'static, Q: 'static>(c: &CoroutineTrapHandler<R>, f: fn() -> Q) { //-
    c.setup_trap_handler(f);
}

//# coroutine-fields-are-private E0451 E0616 E0560 E0063 E0423 E0609 E0610 E0599
fn f<S: Stack>(c: &mut Coroutine<(), (), (), S>) { let _ = c.done(); } //+
fn f<S: Stack>(c: &mut Coroutine<(), (), (), S>) { let _ = c.stack_ptr; } //-

//# coroutine-stack-is-private E0616 E0609
fn f<S: Stack>(c: &mut Coroutine<(), (), (), S>) { let _ = c.done(); } //+
fn f<S: Stack>(c: &mut Coroutine<(), (), (), S>) { let _ = &mut c.stack; } //-

//# yielder-link-is-private E0616 E0609
fn f(y: &Yielder<(), ()>) { let _ = y; } //+
fn f(y: &Yielder<(), ()>) { let _ = &y.stack_ptr; } //-

//# trap-handler-fields-are-private E0616 E0609
fn f(y: &CoroutineTrapHandler<()>) { let _ = y; } //+
fn f(y: &mut CoroutineTrapHandler<()>) { y.stack_base = y.stack_limit; } //-

//# yielder-cannot-be-made E0451 E0063 E0423 E0639 E0797
fn f() {}
fn g() { } //+
fn g() { let _ = Yielder::<(), ()> { ..loop {} }; } //-

//# result-type-fixed-by-the-coroutine E0308
fn f<S: Stack>(c: &mut Coroutine<u8, u16, u32, S>) { let _: CoroutineResult<u16, u32> = c.resume(1u8); } //+
fn f<S: Stack>(c: &mut Coroutine<u8, u16, u32, S>) { let _: CoroutineResult<u32, u16> = c.resume(1u8); } //-

//# suspend-types-fixed-by-the-yielder E0308
fn f(y: &Yielder<u8, u16>) { let _: u8 = y.suspend(1u16); } //+
fn f(y: &Yielder<u8, u16>) { let _: u16 = y.suspend(1u8); } //-

//# default-stack-is-shareable
fn sync<T: Send + Sync>() {}
fn sync1<T: Sync>() {}
fn f() { sync::<DefaultStack>(); sync1::<Coroutine<(), (), (), DefaultStack>>() }
