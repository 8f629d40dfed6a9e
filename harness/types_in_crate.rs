// Appended to a copy of the crate root: each impl pair below is accepted by the coherence
// checker only if NO instance of the two headers overlaps, that is, only if no instantiation
// whatsoever of the crate's type satisfies the bound. Compiling this file is the proof.
#[doc(hidden)]
#[allow(missing_docs, unused, dead_code)]
mod __verif_types {
    use crate::stack::Stack;
    use crate::trap::*;
    use crate::*;
    macro_rules! never {
        ($name:ident, $bound:path, [$($g:tt)*] $t:ty) => {
            mod $name {
                use super::*;
                trait Disjoint {}
                impl<X: ?Sized + $bound> Disjoint for X {}
                impl<$($g)*> Disjoint for $t {}
            }
        };
    }
    //OBLIGATION coroutine-never-Clone
    never!(coroutine_clone, Clone, [I, Y, R, S: Stack] Coroutine<I, Y, R, S>);
    //OBLIGATION yielder-never-Clone
    never!(yielder_clone, Clone, [I, Y] Yielder<I, Y>);
    //OBLIGATION coroutine-never-Default
    never!(coroutine_default, Default, [I, Y, R, S: Stack] Coroutine<I, Y, R, S>);
    //OBLIGATION yielder-never-Default
    never!(yielder_default, Default, [I, Y] Yielder<I, Y>);
    //OBLIGATION yielder-no-conversion-from-address
    never!(yielder_from_usize, From<usize>, [I, Y] Yielder<I, Y>);
    //OBLIGATION default-stack-never-Clone
    #[cfg(feature = "default-stack")]
    never!(stack_clone, Clone, [] crate::stack::DefaultStack);
    //OBLIGATION end
    mod anchor {}

    // Auto traits: the driver asks the trait solver, for each `never_<Trait>_*`, whether any
    // instantiation of the type parameters makes the argument type implement the trait.
    fn never_Send_coroutine<I, Y, R, S: Stack>(_: Coroutine<I, Y, R, S>) {}
    fn never_Send_coroutine_mut_ref<I, Y, R, S: Stack>(_: &'static mut Coroutine<I, Y, R, S>) {}
    fn never_Send_yielder_ref<I, Y>(_: &'static Yielder<I, Y>) {}
    fn never_Sync_yielder<I, Y>(_: Yielder<I, Y>) {}
    fn never_Sync_yielder_ref<I, Y>(_: &'static Yielder<I, Y>) {}
    pub struct NotSync(*mut ());
    unsafe impl Stack for NotSync {
        fn base(&self) -> crate::stack::StackPointer {
            loop {}
        }
        fn limit(&self) -> crate::stack::StackPointer {
            loop {}
        }
    }
    fn never_Sync_coroutine_on_unshareable_stack<I, Y, R>(_: Coroutine<I, Y, R, NotSync>) {}
    fn never_Send_shared_coroutine_on_unshareable_stack<I, Y, R>(_: &'static Coroutine<I, Y, R, NotSync>) {}
}
