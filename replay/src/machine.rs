//! Registers, alignment, unwinding tables and traps, observed from outside the compiler.
use crate::util::*;
use corosensei::stack::Stack;
use corosensei::trap::TrapHandlerRegs;
use corosensei::*;
use std::arch::{asm, global_asm};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type Co = Coroutine<usize, usize, usize, TStack>;

// vc_call(f, arg, out): loads patterns into every callee-saved register, calls f(arg), and stores
// the registers, the stack pointer difference and the flags afterwards. Returns f's result.
#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl vc_call",
    ".balign 16",
    "vc_call:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "push rdx",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rbx, 0x1111111111111111",
    "mov rbp, 0x2222222222222222",
    "mov r12, 0x3333333333333333",
    "mov r13, 0x4444444444444444",
    "mov r14, 0x5555555555555555",
    "mov r15, 0x6666666666666666",
    "mov [rip + vc_saved_sp], rsp",
    "push [rip + vc_saved_sp]",
    "sub rsp, 8",
    "add rsp, 8",
    "sub rsp, 8",
    "call rax",
    "add rsp, 8",
    "pop rcx",
    "sub rcx, rsp",
    "mov rdx, [rsp]",
    "mov [rdx], rbx",
    "mov [rdx + 8], rbp",
    "mov [rdx + 16], r12",
    "mov [rdx + 24], r13",
    "mov [rdx + 32], r14",
    "mov [rdx + 40], r15",
    "mov [rdx + 48], rcx",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl vc_sp",
    "vc_sp:",
    "mov rax, rsp",
    "ret",
    ".globl vc_trap",
    "vc_trap:",
    "sub rsp, rdi",
    "mov rbx, 0x77",
    "mov rbp, 0x99",
    "mov r12, 0x88",
    "std",
    "cld",
    "ud2",
    ".bss",
    ".balign 8",
    "vc_saved_sp:",
    ".skip 8",
    ".text",
);
#[cfg(target_arch = "x86")]
global_asm!(
    ".globl vc_call",
    ".balign 16",
    "vc_call:",
    "push ebp",
    "push ebx",
    "push esi",
    "push edi",
    // f at esp+20, arg at esp+24, out at esp+28
    "mov eax, [esp + 20]",
    "mov ecx, [esp + 24]",
    "sub esp, 8",
    "push esp",
    "push ecx",
    "mov ebx, 0x11111111",
    "mov ebp, 0x22222222",
    "mov esi, 0x33333333",
    "mov edi, 0x44444444",
    // esp must be 0 mod 16 at the call: it is 12 at the entry, and 16+8+8+12 bytes are pushed
    "sub esp, 8",
    "push ecx",
    "call eax",
    "add esp, 12",
    "pop ecx",
    "pop ecx",
    "sub ecx, esp",
    "add esp, 8",
    "mov edx, [esp + 28]",
    "mov [edx], ebx",
    "mov [edx + 4], ebp",
    "mov [edx + 8], esi",
    "mov [edx + 12], edi",
    "mov [edx + 16], ecx",
    "pop edi",
    "pop esi",
    "pop ebx",
    "pop ebp",
    "ret",
    ".globl vc_sp",
    "vc_sp:",
    "mov eax, esp",
    "ret",
    ".globl vc_trap",
    "vc_trap:",
    "mov ecx, [esp + 4]",
    "sub esp, ecx",
    "mov ebx, 0x77",
    "mov ebp, 0x99",
    "mov esi, 0x88",
    "ud2",
);
extern "C" {
    fn vc_call(f: unsafe extern "C" fn(usize) -> usize, arg: usize, out: *mut usize) -> usize;
    fn vc_sp() -> usize;
    fn vc_trap(k: usize) -> !;
}
#[cfg(target_arch = "x86_64")]
const PAT: [usize; 7] = [0x1111111111111111, 0x2222222222222222, 0x3333333333333333, 0x4444444444444444, 0x5555555555555555, 0x6666666666666666, 0];
#[cfg(target_arch = "x86")]
const PAT: [usize; 5] = [0x11111111, 0x22222222, 0x33333333, 0x44444444, 0];
#[cfg(target_arch = "x86_64")]
const N: usize = 7;
#[cfg(target_arch = "x86")]
const N: usize = 5;
/// vc_sp's result modulo 16 when the stack was aligned at the call
#[cfg(target_arch = "x86_64")]
const SPMOD: usize = 8;
#[cfg(target_arch = "x86")]
const SPMOD: usize = 12;

fn aligned(what: &str) {
    let s = unsafe { vc_sp() };
    if s % 16 != SPMOD {
        fatal(&format!("{what}: stack pointer {s:#x} is misaligned"));
    }
}
fn call_checked(f: unsafe extern "C" fn(usize) -> usize, arg: usize, what: &str) -> usize {
    let mut out = [0usize; N];
    let r = unsafe { vc_call(f, arg, out.as_mut_ptr()) };
    if out != PAT {
        fatal(&format!("{what}: callee-saved registers are {out:x?}"));
    }
    r
}
fn trash() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        asm!("pxor xmm0, xmm0", "pcmpeqb xmm1, xmm1", "pxor xmm2, xmm2", "pxor xmm3, xmm3", "pxor xmm4, xmm4", "pxor xmm5, xmm5", "pxor xmm6, xmm6", "pxor xmm7, xmm7",
             "pxor xmm8, xmm8", "pxor xmm9, xmm9", "pxor xmm10, xmm10", "pxor xmm11, xmm11", "pxor xmm12, xmm12", "pxor xmm13, xmm13", "pxor xmm14, xmm14", "pxor xmm15, xmm15",
             "mov rcx, -1", "mov rdx, -1", "mov rsi, -1", "mov rdi, -1", "mov r8, -1", "mov r9, -1", "mov r10, -1", "mov r11, -1", "mov rax, -1",
             "mov r12, -1", "mov r13, -1", "mov r14, -1", "mov r15, -1",
             out("rax") _, out("rcx") _, out("rdx") _, out("rsi") _, out("rdi") _, out("r8") _, out("r9") _, out("r10") _, out("r11") _,
             out("r12") _, out("r13") _, out("r14") _, out("r15") _,
             out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _, out("xmm6") _, out("xmm7") _,
             out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _, out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _)
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        asm!("pxor xmm0, xmm0", "pxor xmm1, xmm1", "pxor xmm2, xmm2", "pxor xmm3, xmm3", "pxor xmm4, xmm4", "pxor xmm5, xmm5", "pxor xmm6, xmm6", "pxor xmm7, xmm7",
             "mov ecx, -1", "mov edx, -1", "mov eax, -1", "mov edi, -1",
             out("eax") _, out("ecx") _, out("edx") _, out("edi") _,
             out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _, out("xmm6") _, out("xmm7") _)
    }
}

unsafe extern "C" fn do_resume(p: usize) -> usize {
    let co = &mut *(p as *mut Co);
    aligned("resumer");
    trash();
    let r = match co.resume(5) {
        CoroutineResult::Yield(v) => v,
        CoroutineResult::Return(v) => v,
    };
    aligned("resumer, afterwards");
    trash();
    r
}
unsafe extern "C" fn do_suspend(p: usize) -> usize {
    let y = &*(p as *const Yielder<usize, usize>);
    aligned("coroutine");
    trash();
    let r = y.suspend(3);
    aligned("coroutine, afterwards");
    trash();
    r
}
#[cfg(feature = "unwind")]
unsafe extern "C" fn do_force(p: usize) -> usize {
    let co = &mut *(p as *mut Co);
    trash();
    co.force_unwind();
    aligned("force_unwind");
    1
}
unsafe extern "C" fn do_onstack(p: usize) -> usize {
    let off = p;
    let r = on_stack(TStack::with_offset(65536, off), || {
        aligned("on_stack closure");
        trash();
        17usize
    });
    aligned("on_stack caller");
    r
}
struct SendPtr(*const ());
unsafe impl Send for SendPtr {}
unsafe extern "C" fn do_onparent(p: usize) -> usize {
    let y = &*(p as *const Yielder<usize, usize>);
    let r = y.on_parent_stack(|| {
        aligned("on_parent_stack closure");
        let big = [7u8; 3000];
        trash();
        std::hint::black_box(&big);
        18usize
    });
    aligned("on_parent_stack caller");
    r
}

/// callee-saved registers and alignment across every kind of switch
pub fn registers() {
    for off in (0..8).map(|x| x * 16) {
        for n in 0..4 {
            let mut co = Co::with_stack(TStack::with_offset(262144, off), move |y, i| {
                aligned("coroutine entry");
                trash();
                let p = y as *const _ as usize;
                for k in 0..n {
                    if k & 1 == 1 {
                        assert_eq!(call_checked(do_onparent, p, "on_parent_stack"), 18);
                    }
                    assert_eq!(call_checked(do_suspend, p, "suspend"), 5);
                    assert_eq!(call_checked(do_onstack, off, "on_stack in a coroutine"), 17);
                }
                trash();
                i
            });
            for k in 0..=n {
                let r = call_checked(do_resume, &mut co as *mut _ as usize, "resume");
                assert_eq!(r, if k < n { 3 } else { 5 });
            }
            assert!(co.done());
            assert_eq!(call_checked(do_onstack, off, "on_stack"), 17);
        }
        #[cfg(feature = "unwind")]
        {
            let mut co = Co::with_stack(TStack::with_offset(262144, off), move |y, i| {
                let t = Tok::new();
                y.suspend(i);
                t.check();
                1
            });
            assert_eq!(call_checked(do_resume, &mut co as *mut _ as usize, "resume"), 5);
            call_checked(do_force, &mut co as *mut _ as usize, "force_unwind");
            assert!(live_toks().is_empty());
        }
    }
}

/// many live values around the calls, so that the optimizer keeps some in every register
#[inline(never)]
fn pressure(co: &mut Co, seed: u64, rounds: u32) -> (u64, f64) {
    let mut a = [0u64; 14];
    let mut f = [0f64; 18];
    for (i, x) in a.iter_mut().enumerate() {
        *x = seed.wrapping_mul(i as u64 * 2 + 1);
    }
    for (i, x) in f.iter_mut().enumerate() {
        *x = (seed % 1000) as f64 + i as f64;
    }
    let [mut a0, mut a1, mut a2, mut a3, mut a4, mut a5, mut a6, mut a7, mut a8, mut a9, mut a10, mut a11, mut a12, mut a13] = a;
    let [mut f0, mut f1, mut f2, mut f3, mut f4, mut f5, mut f6, mut f7, mut f8, mut f9, mut f10, mut f11, mut f12, mut f13, mut f14, mut f15, mut f16, mut f17] = f;
    for k in 0..rounds {
        step(co);
        a0 = a0.rotate_left(3) ^ a1;
        a1 = a1.wrapping_add(a2);
        a2 ^= a3;
        a3 = a3.wrapping_mul(3).wrapping_add(a4);
        a4 ^= a5 >> 1;
        a5 = a5.wrapping_sub(a6);
        a6 = a6.rotate_right(7) ^ a7;
        a7 = a7.wrapping_add(a8);
        a8 ^= a9;
        a9 = a9.wrapping_add(a10);
        a10 ^= a11 << 1;
        a11 = a11.wrapping_add(a12);
        a12 ^= a13;
        a13 = a13.wrapping_add(a0 ^ k as u64);
        f0 = f0 * 0.5 + f1;
        f1 = f1 * 0.5 + f2;
        f2 = f2 * 0.5 + f3;
        f3 = f3 * 0.5 + f4;
        f4 = f4 * 0.5 + f5;
        f5 = f5 * 0.5 + f6;
        f6 = f6 * 0.5 + f7;
        f7 = f7 * 0.5 + f8;
        f8 = f8 * 0.5 + f9;
        f9 = f9 * 0.5 + f10;
        f10 = f10 * 0.5 + f11;
        f11 = f11 * 0.5 + f12;
        f12 = f12 * 0.5 + f13;
        f13 = f13 * 0.5 + f14;
        f14 = f14 * 0.5 + f15;
        f15 = f15 * 0.5 + f16;
        f16 = f16 * 0.5 + f17;
        f17 = f17 * 0.5 + 1.0;
    }
    (
        a0 ^ a1 ^ a2 ^ a3 ^ a4 ^ a5 ^ a6 ^ a7 ^ a8 ^ a9 ^ a10 ^ a11 ^ a12 ^ a13,
        f0 + f1 + f2 + f3 + f4 + f5 + f6 + f7 + f8 + f9 + f10 + f11 + f12 + f13 + f14 + f15 + f16 + f17,
    )
}
thread_local!(static MODE: Cell<u32> = Cell::new(0));
#[inline(always)]
fn step(co: &mut Co) {
    match MODE.with(|m| m.get()) {
        0 => {
            std::hint::black_box(co.resume(1));
        }
        1 => {
            std::hint::black_box(on_stack(crate::util::TStack::new(16384), || {
                trash();
                1u64
            }));
        }
        _ => {}
    }
}
pub fn pressure_test() {
    for seed in 1..20u64 {
        let mut res = vec![];
        for mode in 0..3 {
            MODE.with(|m| m.set(mode));
            let mut co = Co::with_stack(TStack::new(262144), |y, mut i| {
                trash();
                for _ in 0..300 {
                    i = y.suspend(i);
                    trash();
                }
                i
            });
            res.push(pressure(&mut co, seed * 77777, 50));
            #[cfg(not(feature = "unwind"))]
            unsafe {
                co.force_reset()
            };
            // and inside the coroutine
            let mut co = Co::with_stack(TStack::new(262144), move |y, _| {
                let mut x = [seed; 15];
                let mut f = [seed as f64; 16];
                for k in 0..50 {
                    let [a, b, c, d, e, g, h, i2, j, l, m, n, o, p, q] = x;
                    let [fa, fb, fc, fd, fe, fg, fh, fi, fj, fl, fm, fn_, fo, fp, fq, fr] = f;
                    if mode == 0 {
                        std::hint::black_box(y.suspend(k));
                    } else if mode == 1 {
                        std::hint::black_box(y.on_parent_stack(|| {
                            trash();
                            1u8
                        }));
                    }
                    x = [b ^ c, c + 1, d, e, g ^ a, h, i2, j, l, m, n, o, p, q, a.wrapping_mul(3)];
                    f = [fb, fc, fd + fa, fe, fg, fh, fi, fj, fl, fm, fn_, fo, fp, fq, fr, fa * 0.25 + 1.0];
                }
                x.iter().fold(0u64, |s, v| s.wrapping_mul(31) ^ v) as usize ^ f.iter().sum::<f64>().to_bits() as usize
            });
            let mut last = 0;
            while !co.done() {
                if let CoroutineResult::Return(v) = co.resume(0) {
                    last = v;
                }
                trash();
            }
            res.push((last as u64, 0.0));
        }
        assert!(res[0] == res[2 * 2], "values live across resume changed (seed {seed})");
        assert!(res[2] == res[4], "values live across on_stack changed (seed {seed})");
        assert!(res[1] == res[5], "values live across suspend changed (seed {seed})");
        assert!(res[3] == res[5], "values live across on_parent_stack changed (seed {seed})");
    }
}

// ------------------------------------------------------------ unwinding tables
#[repr(C)]
struct Ctx {
    _p: [u8; 0],
}
extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut Ctx, *mut BT) -> i32, d: *mut BT) -> i32;
    fn _Unwind_GetIP(c: *mut Ctx) -> usize;
    fn _Unwind_GetCFA(c: *mut Ctx) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: *mut libc::c_void) -> *mut libc::c_void;
}
#[derive(Default)]
struct BT {
    ips: Vec<(usize, usize)>,
}
extern "C" fn frame(c: *mut Ctx, d: *mut BT) -> i32 {
    unsafe {
        (*d).ips.push((_Unwind_GetIP(c), _Unwind_GetCFA(c)));
        if (*d).ips.len() > 300 {
            return 5;
        }
    }
    0
}
#[inline(never)]
fn bt() -> Vec<(usize, usize)> {
    let mut b = BT::default();
    unsafe { _Unwind_Backtrace(frame, &mut b) };
    b.ips
}
fn func_of(ip: usize) -> usize {
    if ip == 0 {
        return 0;
    }
    unsafe { _Unwind_FindEnclosingFunction(ip as *mut _) as usize }
}
/// the frames from here to the outermost one must contain the functions `want` in this order
fn check_bt(want: &[usize], what: &str) {
    let b = bt();
    let fs: Vec<usize> = b.iter().map(|x| func_of(x.0)).collect();
    let mut it = fs.iter();
    for w in want {
        if !it.any(|f| f == w) {
            fatal(&format!("{what}: the backtrace does not pass through the expected callers ({} frames)", fs.len()));
        }
    }
}
/// frame pointer chain (this crate is compiled with frame pointers)
fn check_fp(want: &[usize], what: &str) {
    let mut fp: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        asm!("mov {}, rbp", out(reg) fp);
        #[cfg(target_arch = "x86")]
        asm!("mov {}, ebp", out(reg) fp);
    }
    assert!(!want.contains(&0));
    let mut it = want.iter();
    let mut next = it.next();
    let w = std::mem::size_of::<usize>();
    for _ in 0..200 {
        let Some(n) = next else { return };
        if fp == 0 || fp % w != 0 {
            break;
        }
        unsafe {
            let ret = *((fp + w) as *const usize);
            if ret == 0 {
                break;
            }
            if func_of(ret) == *n {
                next = it.next();
            }
            fp = *(fp as *const usize);
        }
    }
    if next.is_some() {
        fatal(&format!("{what}: the frame pointer chain does not pass through the expected callers"));
    }
}
thread_local!(static EXPECT: RefCell<Vec<usize>> = RefCell::new(vec![]));
fn check_here(what: &str) {
    let w: Vec<usize> = EXPECT.with(|e| e.borrow().iter().rev().cloned().collect());
    check_bt(&w, what);
    check_fp(&w, what);
}
fn enter(f: usize) -> impl Drop {
    struct P;
    impl Drop for P {
        fn drop(&mut self) {
            EXPECT.with(|e| {
                e.borrow_mut().pop();
            })
        }
    }
    EXPECT.with(|e| e.borrow_mut().push(f));
    P
}
macro_rules! parent {
    ($n:ident) => {
        #[inline(never)]
        fn $n(f: &mut dyn FnMut()) {
            let _g = enter(func_of($n as usize + 4));
            f();
            std::hint::black_box(());
        }
    };
}
parent!(parent_a);
parent!(parent_b);
parent!(parent_c);

pub fn backtraces() {
    let mut co = Co::with_stack(TStack::new(262144), |y, _| {
        check_here("first resume");
        for _ in 0..6 {
            y.suspend(1);
            check_here("later resume");
            on_stack(TStack::new(131072), || check_here("on_stack in a coroutine"));
            y.on_parent_stack(|| check_here("on_parent_stack"));
            let mut inner = Co::with_stack(TStack::new(131072), |y, _| {
                check_here("inner coroutine");
                y.suspend(1);
                check_here("inner coroutine, later");
                y.on_parent_stack(|| check_here("on_parent_stack of an inner coroutine"));
                1
            });
            parent_c(&mut || {
                inner.resume(1);
            });
            inner.resume(1);
            check_here("after the inner coroutine");
        }
        2
    });
    parent_a(&mut || {
        co.resume(1);
        on_stack(TStack::new(131072), || check_here("on_stack"));
    });
    parent_b(&mut || {
        parent_a(&mut || {
            co.resume(1);
        });
        co.resume(1);
    });
    co.resume(1);
    while !co.done() {
        parent_b(&mut || {
            co.resume(1);
        });
    }
}

/// a trap handler's closure is unwound into the context that resumed last
pub fn trap_backtraces() {
    install();
    for (k, s) in [(0, 0), (0, 1), (24, 2), (5000, 1), (200_000, 0)] {
        let mut co = Coroutine::<u32, u32, u32, TStack>::with_stack(TStack::new(262144), move |y, _| {
            for _ in 0..s {
                y.suspend(1);
            }
            unsafe { vc_trap(k) }
        });
        let th = co.trap_handler();
        HANDLER.with(|h| {
            *h.borrow_mut() = Some(Box::new(move |sp| {
                if !th.stack_ptr_in_bounds(sp) {
                    return None;
                }
                Some(unsafe {
                    th.setup_trap_handler(move || {
                        check_here("trap handler");
                        promise(&[3, BP]);
                        77
                    })
                })
            }))
        });
        parent_a(&mut || {
            for _ in 0..s {
                co.resume(1);
            }
        });
        parent_b(&mut || {
            parent_c(&mut || {
                assert_eq!(co.resume(1).as_return(), Some(77));
                kept("trap handler");
            })
        });
        HANDLER.with(|h| h.borrow_mut().take());
    }
}

// ------------------------------------------------------------ the unwound registers against those at the return
extern "C" {
    fn _Unwind_GetGR(c: *mut Ctx, n: i32) -> usize;
}
#[cfg(target_arch = "x86_64")]
const BP: i32 = 6;
#[cfg(target_arch = "x86")]
const BP: i32 = 5;
#[cfg(target_arch = "x86_64")]
const SAVED: i32 = 3; // rbx
#[cfg(target_arch = "x86")]
const SAVED: i32 = 6; // esi
#[derive(Default)]
struct Step {
    /// this frame and its caller's stack, filled in by the unwinder
    here: usize,
    ip: usize,
    cfa: usize,
    regs: Vec<(i32, usize)>,
    found: bool,
    seen: bool,
    done: bool,
    steps: u32,
    got: [usize; 4],
}
static mut STEP: Option<Step> = None;
extern "C" fn look(c: *mut Ctx, s: *mut Step) -> i32 {
    unsafe {
        let s = &mut *s;
        let cfa = _Unwind_GetCFA(c);
        // the first frame on another stack (the arguments of this one lie just below `here`)
        if cfa + 512 < s.here || cfa > s.here + 60_000 {
            s.ip = _Unwind_GetIP(c);
            s.cfa = cfa;
            for r in &mut s.regs {
                r.1 = _Unwind_GetGR(c, r.0);
            }
            s.found = true;
            return 5;
        }
    }
    0
}
fn greg(g: &[libc::greg_t], n: i32) -> usize {
    #[cfg(target_arch = "x86_64")]
    let k = match n {
        3 => libc::REG_RBX,
        6 => libc::REG_RBP,
        7 => libc::REG_RSP,
        12 => libc::REG_R12,
        13 => libc::REG_R13,
        14 => libc::REG_R14,
        15 => libc::REG_R15,
        _ => libc::REG_RIP,
    };
    #[cfg(target_arch = "x86")]
    let k = match n {
        3 => libc::REG_EBX,
        4 => libc::REG_ESP,
        5 => libc::REG_EBP,
        6 => libc::REG_ESI,
        7 => libc::REG_EDI,
        _ => libc::REG_EIP,
    };
    #[cfg(target_arch = "x86_64")]
    return g[k as usize] as usize;
    #[cfg(target_arch = "x86")]
    return g[k as usize] as u32 as usize;
}
#[cfg(target_arch = "x86_64")]
const SP: i32 = 7;
#[cfg(target_arch = "x86")]
const SP: i32 = 4;
unsafe extern "C" fn on_step(_s: i32, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let g = &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let Some(st) = (*std::ptr::addr_of_mut!(STEP)).as_mut() else {
        g[libc::REG_EFL as usize] &= !0x100;
        return;
    };
    st.steps += 1;
    if greg(g, 99) == st.ip {
        st.seen = true;
    }
    if st.seen && greg(g, SP) == st.cfa {
        st.done = true;
        for (i, r) in st.regs.iter().enumerate() {
            st.got[i] = greg(g, r.0);
        }
    }
    if st.done || st.steps > 200_000 {
        g[libc::REG_EFL as usize] &= !0x100;
    }
}
/// note what the unwind information says about the context below this stack, and single-step until it runs
#[inline(never)]
fn promise(regs: &[i32]) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_step as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        let mut s = Step { here: sp_here(), regs: regs.iter().map(|r| (if *r == 3 { SAVED } else { *r }, 0)).collect(), ..Default::default() };
        extern "C" {
            #[link_name = "_Unwind_Backtrace"]
            fn walk(f: extern "C" fn(*mut Ctx, *mut Step) -> i32, d: *mut Step) -> i32;
        }
        walk(look, &mut s);
        if !s.found {
            fatal("unwinding does not reach another stack");
        }
        STEP = Some(s);
        #[cfg(target_arch = "x86_64")]
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        #[cfg(target_arch = "x86")]
        asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
    }
}
#[inline(never)]
fn kept(what: &str) {
    let s = unsafe { (*std::ptr::addr_of_mut!(STEP)).take() }.expect("no promise");
    if !s.done {
        fatal(&format!("{what}: control does not return to the address and stack pointer that unwinding shows (seen {}, {} steps)", s.seen, s.steps));
    }
    for (i, r) in s.regs.iter().enumerate() {
        if s.got[i] != r.1 {
            fatal(&format!("{what}: register {} is {:#x} when control returns, the unwind information gives {:#x}", r.0, s.got[i], r.1));
        }
    }
}
#[inline(never)]
fn promise_on_stack() {
    #[cfg(target_arch = "x86_64")]
    promise(&[12, 13, 14, BP]);
    #[cfg(target_arch = "x86")]
    promise(&[7, 6, BP]);
}
pub fn unwound_registers() {
    // stack switches need the handler's own stack
    install();
    let mut co = Co::with_stack(TStack::new(262144), |y, _| {
        promise(&[3, BP]);
        for _ in 0..4 {
            y.suspend(1);
            y.on_parent_stack(|| ());
            promise(&[3, BP]);
            y.suspend(1);
            on_stack(TStack::new(131072), promise_on_stack);
            kept("on_stack in a coroutine");
            y.on_parent_stack(promise_on_stack);
            kept("on_parent_stack");
            let mut inner = Co::with_stack(TStack::new(131072), |y, _| {
                promise(&[3, BP]);
                y.suspend(1);
                promise(&[3, BP]);
                1
            });
            inner.resume(1);
            kept("inner coroutine");
            parent_c(&mut || {
                inner.resume(1);
                kept("inner coroutine returning");
            });
            drop(inner);
            promise(&[3, BP]);
        }
        2
    });
    #[inline(never)]
    fn deep(co: &mut Co, n: u32, what: &str) {
        std::hint::black_box([n; 30]);
        if n > 0 {
            deep(co, n - 1, what);
        } else {
            co.resume(1);
            kept(what);
        }
        std::hint::black_box([n; 30]);
    }
    deep(&mut co, 3, "first resume");
    for k in 0..4 {
        deep(&mut co, k * 5 % 7, "later resume");
        deep(&mut co, k * 3 % 5, "later resume");
    }
    assert!(co.done());
    on_stack(TStack::new(131072), promise_on_stack);
    kept("on_stack");
}

// ------------------------------------------------------------ requests to Valgrind
/// a request seen while single-stepping: arguments, whether the sequence was exact, whether the start of
/// the stack it concerns was mapped
#[derive(Clone, Copy, Debug, Default)]
pub struct Request {
    pub code: usize,
    pub a: usize,
    pub b: usize,
    pub id: usize,
    pub exact: bool,
    pub mapped: bool,
}
static mut REQ: [Request; 16] = [Request { code: 0, a: 0, b: 0, id: 0, exact: false, mapped: false }; 16];
static mut NREQ: usize = 0;
static mut ROT: [usize; 5] = [0; 5];
const ID0: usize = 0x4700;
unsafe fn is_mapped(a: usize) -> bool {
    let mut v = 0u8;
    libc::syscall(libc::SYS_mincore, a & !4095, 1usize, &mut v as *mut u8) == 0
}
unsafe extern "C" fn on_request(_s: i32, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let e = *libc::__errno_location();
    let g = &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    let (ip, arg, res, di, xchg, pre): (usize, usize, usize, usize, &[u8], &[u8]) = (
        g[libc::REG_RIP as usize] as usize,
        g[libc::REG_RAX as usize] as usize,
        libc::REG_RDX as usize,
        g[libc::REG_RDI as usize] as usize,
        &[0x48, 0x87, 0xdb],
        &[0x48, 0xc1, 0xc7, 3, 0x48, 0xc1, 0xc7, 13, 0x48, 0xc1, 0xc7, 61, 0x48, 0xc1, 0xc7, 51],
    );
    #[cfg(target_arch = "x86")]
    let (ip, arg, res, di, xchg, pre): (usize, usize, usize, usize, &[u8], &[u8]) = (
        g[libc::REG_EIP as usize] as u32 as usize,
        g[libc::REG_EAX as usize] as u32 as usize,
        libc::REG_EDX as usize,
        g[libc::REG_EDI as usize] as u32 as usize,
        &[0x87, 0xdb],
        &[0xc1, 0xc7, 3, 0xc1, 0xc7, 13, 0xc1, 0xc7, 29, 0xc1, 0xc7, 19],
    );
    let rot = std::ptr::addr_of_mut!(ROT) as *mut usize;
    if std::slice::from_raw_parts(ip as *const u8, xchg.len()) == xchg {
        let w = arg as *const usize;
        let n = NREQ.min(15);
        let r = &mut *(std::ptr::addr_of_mut!(REQ) as *mut Request).add(n);
        *r = Request { code: *w, a: *w.add(1), b: *w.add(2), ..Default::default() };
        r.exact = std::slice::from_raw_parts((ip - pre.len()) as *const u8, pre.len()) == pre && di == *rot.add(3);
        if r.code == 0x1501 {
            r.id = ID0 + n;
            r.mapped = is_mapped(r.a);
            g[res] = r.id as libc::greg_t;
        } else {
            for k in 0..n {
                let q = *(std::ptr::addr_of!(REQ) as *const Request).add(k);
                if q.code == 0x1501 && q.id == r.a {
                    r.mapped = is_mapped(q.a);
                }
            }
        }
        NREQ += 1;
    }
    // the rotated register as it was four instructions ago
    for k in (1..5).rev() {
        *rot.add(k) = *rot.add(k - 1);
    }
    *rot = di;
    *libc::__errno_location() = e;
}
/// run f under single-stepping and return the requests it makes
pub fn requests(f: &mut dyn FnMut()) -> Vec<Request> {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_request as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        NREQ = 0;
        #[cfg(target_arch = "x86_64")]
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        #[cfg(target_arch = "x86")]
        asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
        f();
        #[cfg(target_arch = "x86_64")]
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        #[cfg(target_arch = "x86")]
        asm!("pushfd", "and dword ptr [esp], -257", "popfd");
        let n = NREQ;
        if n > 16 {
            fatal("too many requests");
        }
        std::slice::from_raw_parts(std::ptr::addr_of!(REQ) as *const Request, n).to_vec()
    }
}

// ------------------------------------------------------------ traps
thread_local! {
    static HANDLER: RefCell<Option<Box<dyn FnMut(usize) -> Option<TrapHandlerRegs>>>> = RefCell::new(None);
}
unsafe extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let c = &mut *(c as *mut libc::ucontext_t);
    let g = &mut c.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    let sp = g[libc::REG_RSP as usize] as usize;
    #[cfg(target_arch = "x86")]
    let sp = g[libc::REG_ESP as usize] as u32 as usize;
    let r = HANDLER.with(|h| (h.borrow_mut().as_mut().unwrap())(sp));
    let Some(r) = r else { fatal("trap outside the coroutine") };
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = r;
        g[libc::REG_RIP as usize] = rip as i64;
        g[libc::REG_RSP as usize] = rsp as i64;
        g[libc::REG_RBP as usize] = rbp as i64;
        g[libc::REG_RDI as usize] = rdi as i64;
        g[libc::REG_RSI as usize] = rsi as i64;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = r;
        g[libc::REG_EIP as usize] = eip as i32;
        g[libc::REG_ESP as usize] = esp as i32;
        g[libc::REG_EBP as usize] = ebp as i32;
        g[libc::REG_ECX as usize] = ecx as i32;
        g[libc::REG_EDX as usize] = edx as i32;
    }
}
fn install() {
    unsafe {
        let len = 262144;
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: len };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGILL, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    }
}

pub trait Ret: 'static {
    fn make() -> Self;
    fn ok(&self) -> bool;
}
impl Ret for () {
    fn make() {}
    fn ok(&self) -> bool {
        true
    }
}
impl Ret for usize {
    fn make() -> usize {
        0x1234567
    }
    fn ok(&self) -> bool {
        *self == 0x1234567
    }
}
impl Ret for [u8; 100] {
    fn make() -> Self {
        [0x3d; 100]
    }
    fn ok(&self) -> bool {
        *self == [0x3d; 100]
    }
}
impl Ret for Box<u32> {
    fn make() -> Self {
        Box::new(99)
    }
    fn ok(&self) -> bool {
        **self == 99
    }
}
#[repr(align(64))]
pub struct Al([u8; 70]);
impl Ret for Al {
    fn make() -> Self {
        Al([5; 70])
    }
    fn ok(&self) -> bool {
        self.0 == [5; 70]
    }
}

fn trap_one<R: Ret, const CAP: usize>(off: usize, k: usize, suspends: u32, panics: bool) {
    install();
    let st = TStack::with_offset(262144, off);
    let pr = st.probe();
    let runs = Rc::new(Cell::new(0));
    let runs2 = runs.clone();
    let mut co = Coroutine::<u32, u32, R, TStack>::with_stack(st, move |y, _| {
        for _ in 0..suspends {
            y.suspend(1);
        }
        unsafe { vc_trap(k) }
    });
    let th = co.trap_handler();
    let cap = [0x5eu8; CAP];
    let tok = Tok::new();
    let tid = tok.0;
    let mut once = Some((cap, tok));
    HANDLER.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |sp| {
            if !th.stack_ptr_in_bounds(sp) {
                return None;
            }
            let (cap, tok) = once.take()?;
            let runs = runs2.clone();
            Some(unsafe {
                th.setup_trap_handler(move || {
                    aligned("trap closure");
                    tok.check();
                    let s = sp_here();
                    if !pr.contains(s) {
                        fatal(&format!("trap closure runs at {s:#x}"));
                    }
                    if cap != [0x5e; CAP] {
                        fatal("trap closure damaged");
                    }
                    runs.set(runs.get() + 1);
                    trash();
                    if panics {
                        std::panic::resume_unwind(Box::new(31u8));
                    }
                    R::make()
                })
            })
        }))
    });
    for _ in 0..suspends {
        co.resume(1);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call_back(&mut co)));
    assert_eq!(runs.get(), 1);
    assert_eq!(state(tid), 2, "trap closure leaked");
    match r {
        Ok(v) => {
            assert!(!panics);
            assert!(v.as_return().expect("trap must return").ok(), "another value returned");
        }
        Err(p) => {
            assert!(panics);
            assert_eq!(p.downcast_ref::<u8>(), Some(&31));
        }
    }
    assert!(co.done() && co.started());
    pr.check();
    HANDLER.with(|h| h.borrow_mut().take());
}
fn sp_here() -> usize {
    unsafe { vc_sp() }
}
#[inline(never)]
fn call_back<R: 'static>(co: &mut Coroutine<u32, u32, R, TStack>) -> CoroutineResult<u32, R> {
    let a = [1u64, 2, 3, 4, 5, 6, 7];
    let b = std::hint::black_box(a);
    let r = co.resume(2);
    assert_eq!(std::hint::black_box(b), a);
    r
}

pub fn traps() {
    let w = std::mem::size_of::<usize>();
    for off in [0, 16, 112, 256, 1008] {
        for k in [0, w, 2 * w, 3 * w, 64, 100 * w, 1001, 3, 200_000] {
            for s in 0..3 {
                for p in [false, true] {
                    if p && !cfg!(feature = "unwind") {
                        continue;
                    }
                    trap_one::<usize, 0>(off, k, s, p);
                    trap_one::<(), 8>(off, k, s, p);
                    trap_one::<[u8; 100], 100>(off, k, s, p);
                    trap_one::<Box<u32>, 900>(off, k, s, p);
                    trap_one::<Al, 33>(off, k, s, p);
                }
            }
        }
    }
}

pub fn trap_bounds() {
    let st = TStack::new(8192);
    let (b, l) = (st.base().get(), st.limit().get());
    let co = Co::with_stack(st, |_, i| i);
    let th = co.trap_handler();
    for x in [0, 1, l - 4096, l - 16, l - 1] {
        assert!(!th.stack_ptr_in_bounds(x), "{x:#x} below the limit");
    }
    for x in [l, l + 1, l + 16, b - 4096, b - 16, b - 1] {
        assert!(th.stack_ptr_in_bounds(x), "{x:#x} in bounds");
    }
    for x in [b, b + 1, b + 16, b + 4096, usize::MAX] {
        assert!(!th.stack_ptr_in_bounds(x), "{x:#x} above the base");
    }
    // closures that are too big are refused and dropped
    let t = Tok::new();
    let big = [1u8; 4000];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        th.setup_trap_handler(move || {
            t.check();
            big[3] as usize
        })
    }));
    assert!(r.is_err());
    assert!(live_toks().is_empty());
}

#[cfg(not(feature = "unwind"))]
pub fn trap_panic_aborts() {
    let f = shared();
    let e = child(|| {
        install();
        let mut co = Coroutine::<u32, u32, u32, TStack>::with_stack(TStack::new(131072), |_, _| unsafe { vc_trap(64) });
        let th = co.trap_handler();
        HANDLER.with(|h| *h.borrow_mut() = Some(Box::new(move |_| Some(unsafe { th.setup_trap_handler(|| panic!("boom")) }))));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| co.resume(1)));
        f[0].store(1, std::sync::atomic::Ordering::SeqCst);
    });
    assert!(matches!(e, Exit::Signal(libc::SIGABRT)), "{e:?}");
    assert_eq!(f[0].load(std::sync::atomic::Ordering::SeqCst), 0);
}
