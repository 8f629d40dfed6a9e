//! Concrete programs used to replay violations against the real code (and as the bounded stand-in
//! where the verifier cannot follow the code). `list <property>` / `run <name>`.
#![allow(dead_code)]
mod life;
mod machine;
mod stacks;
mod util;
mod values;

type T = (&'static str, &'static str, fn());

fn tests() -> Vec<T> {
    let mut v: Vec<T> = vec![
        ("values_same", "C01 C02 C03 C12 C15", values::values_same),
        ("values_in", "C01 C12 C15", values::values_in),
        ("values_yield", "C01 C12 C15", values::values_yield),
        ("values_return", "C01 C12 C15", values::values_return),
        ("accessors", "C01 C15", values::accessors),
        ("closures", "C03 C05 C06 C12 C13 C15", values::closures),
        ("closures_exact", "C06 C12 C13 C15", values::closures_exact),
        ("closures_alignment", "C06 C12 C13 C15", values::closures_alignment),
        ("ref_stack", "C13 C15", values::ref_stack),
        ("stack_types", "C05 C08 C13 C15", values::stack_types),
        ("histories", "C01 C02 C03 C05 C12 C13 C15 C17", life::histories),
        ("reset", "C03 C12 C13 C15", life::reset),
        ("marathon", "C01 C02 C03 C12 C15 C17", life::marathon),
        ("registers", "C02 C08 C09 C12 C15 C17", machine::registers),
        ("pressure", "C01 C02 C08 C09 C15 C17", machine::pressure_test),
        ("backtraces", "C02 C08 C09 C11 C15 C17", machine::backtraces),
        ("trap_backtraces", "C10 C11 C15", machine::trap_backtraces),
        ("unwound_registers", "C11 C15", machine::unwound_registers),
        ("traps", "C10 C12 C11 C15 C06", machine::traps),
        ("trap_bounds", "C10 C15 C06", machine::trap_bounds),
        ("default_stack", "C07 C16 C15 C13", stacks::default_stack),
        ("default_co", "C07 C16 C06 C12 C13 C15", stacks::default_co),
        ("onstack", "C08 C12 C13 C15", stacks::onstack),
        ("onparent", "C09 C12 C15 C17", stacks::onparent),
        ("valgrind_inert", "C16", stacks::valgrind_inert),
        ("valgrind_requests", "C16", stacks::valgrind_requests),
    ];
    macro_rules! universe {
        ($($n:literal),*) => {$( v.push((concat!("universe", $n), "C01 C02 C03 C04 C05 C08 C09 C11 C12 C13 C15 C17", || life::universe($n * 150, $n * 150 + 150))); )*};
    }
    universe!(0, 1, 2, 3);
    #[cfg(feature = "unwind")]
    v.extend([
        ("panics", "C03 C04 C05 C12 C17 C11", life::panics as fn()),
        ("payloads", "C04 C03", life::payloads as fn()),
        ("forced_plain", "C03 C05 C12 C13 C04", life::forced_plain as fn()),
        ("forced_reactions", "C03 C05 C04 C01", life::forced_reactions as fn()),
        ("forced_foreign", "C05 C04 C17", life::forced_foreign as fn()),
        ("panicking_destructors", "C03 C05 C06 C13 C12", life::panicking_destructors as fn()),
        ("drop_aborts", "C05 C13", life::drop_aborts as fn()),
        ("onstack_panics", "C04 C08 C09 C12 C13", stacks::onstack_panics as fn()),
    ]);
    #[cfg(not(feature = "unwind"))]
    v.extend([
        ("nounwind_aborts", "C15 C04", life::nounwind_aborts as fn()),
        ("trap_panic_aborts", "C15 C10", machine::trap_panic_aborts as fn()),
    ]);
    v.push(("valgrind", "", stacks::valgrind_print));
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            for (n, ps, _) in tests() {
                if ps.split(' ').any(|p| p == a[2]) {
                    println!("{n}");
                }
            }
        }
        "run" => {
            unsafe {
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
            }
            std::env::set_var("RUST_BACKTRACE", "0");
            let t = tests().into_iter().find(|t| t.0 == a[2]).expect("no such program");
            (t.2)();
            println!("passed");
        }
        _ => panic!("usage"),
    }
}
