// Appended, in memory only, to the crate root by the extraction driver. Nothing in
// here is verified or executed: it only names the public API items (instantiated
// with fresh generic parameters) whose MIR is to be extracted.
#[doc(hidden)]
#[allow(missing_docs, unused, dead_code)]
pub mod __verif_roots {
    use crate::stack::{Stack, StackPointer};
    use crate::trap::*;
    use crate::*;

    fn keep<T>(_t: T) {}
    fn any<T>() -> T {
        loop {}
    }

    pub fn min_stack_size() -> usize {
        crate::stack::MIN_STACK_SIZE
    }

    pub unsafe fn root_main<Input, Yield, Return, Stk, Func, TrapFn, PFunc, PRes, OFunc, ORes, OStk>()
    where
        Input: 'static,
        Yield: 'static,
        Return: 'static,
        Stk: Stack + 'static,
        Func: FnOnce(&Yielder<Input, Yield>, Input) -> Return + 'static,
        TrapFn: FnOnce() -> Return + 'static,
        PFunc: FnOnce() -> PRes + Send,
        OFunc: FnOnce() -> ORes,
        OStk: Stack,
    {
        keep(Coroutine::<Input, Yield, Return, Stk>::with_stack::<Func>);
        keep(Coroutine::<Input, Yield, Return, Stk>::resume);
        keep(Coroutine::<Input, Yield, Return, Stk>::started);
        keep(Coroutine::<Input, Yield, Return, Stk>::done);
        keep(Coroutine::<Input, Yield, Return, Stk>::force_reset);
        keep(Coroutine::<Input, Yield, Return, Stk>::force_unwind);
        keep(Coroutine::<Input, Yield, Return, Stk>::into_stack);
        keep(Coroutine::<Input, Yield, Return, Stk>::trap_handler);
        keep(core::ptr::drop_in_place::<Coroutine<Input, Yield, Return, Stk>>);
        keep(Yielder::<Input, Yield>::suspend);
        keep(Yielder::<Input, Yield>::on_parent_stack::<PFunc, PRes>);
        keep(CoroutineTrapHandler::<Return>::stack_ptr_in_bounds);
        keep(CoroutineTrapHandler::<Return>::setup_trap_handler::<TrapFn>);
        keep(CoroutineResult::<Yield, Return>::as_yield);
        keep(CoroutineResult::<Yield, Return>::as_return);
        keep(<&'static mut Stk as Stack>::base);
        keep(<&'static mut Stk as Stack>::limit);
        let _: ORes = on_stack(any::<OStk>(), any::<OFunc>());
        keep(any::<CoroutineResult<Yield, Return>>);
        keep(min_stack_size);
    }

    #[cfg(feature = "default-stack")]
    pub unsafe fn root_default<Input, Yield, Return, Func>()
    where
        Input: 'static,
        Yield: 'static,
        Return: 'static,
        Func: FnOnce(&Yielder<Input, Yield>, Input) -> Return + 'static,
    {
        use crate::stack::DefaultStack;
        keep(min_stack_size);
        keep(DefaultStack::new);
        keep(<DefaultStack as Default>::default);
        keep(<DefaultStack as Stack>::base);
        keep(<DefaultStack as Stack>::limit);
        #[cfg(windows)]
        {
            keep(<DefaultStack as Stack>::teb_fields);
            keep(<DefaultStack as Stack>::update_teb_fields);
        }
        keep(core::ptr::drop_in_place::<DefaultStack>);
        keep(Coroutine::<Input, Yield, Return>::new::<Func>);
        keep(core::ptr::drop_in_place::<Coroutine<Input, Yield, Return>>);
    }

    pub unsafe fn root_valgrind() {
        use crate::stack::valgrind::ValgrindStackRegistration;
        keep(ValgrindStackRegistration::new);
        keep(core::ptr::drop_in_place::<ValgrindStackRegistration>);
    }
}
