#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Machine-checked for all type parameters, sizes, alignments, stack addresses, register contents and histories on x86-64 and i686 Unix "
        "(debug and release MIR, with and without asm-unwind): every obligation generated from /repo's current MIR and assembly is discharged by the verifier (z3 and "
        "syntactic rules). Trusted: rustc's MIR, corovc's semantics of MIR, assembly and unwind information, the asm! operand contract, contracts of the std panic "
        "runtime, z3. Code outside the verifier's reach falls back to a bounded replay suite and is reported as not proved.")
TECH = "contract-based deductive verification (VC generation over the crate's MIR and inline assembly, discharged by z3)"
EXTRA = {
    "C07": " OS calls are under contract (mmap/mprotect/munmap/sysconf may fail or return anything POSIX allows; pages are powers of two >= 4096).",
    "C15": " Verified configurations: the same targets without the unwind feature.",
    "C16": " The client-request block is verified as assembly with and without Valgrind answering.",
    "C19": " Here on AArch64, 32-bit ARM (ARMv7 A32, Thumb-2 and Thumb-1 code), RISC-V 64 and 32 and LoongArch64 Linux, with and without asm-unwind. Nothing runs on these targets here: no replay, and code outside the verifier's reach is reported as not decided.",
    "C18": " Here on Windows x86-64 and i686 (msvc), with and without unwind and asm-unwind. The TEB is modelled as memory that the system and user code may change as Windows does (stack growth); VirtualAlloc/VirtualFree/SetThreadStackGuarantee/_resetstkoflw are under contract. Nothing runs on Windows here: no replay, and code outside the verifier's reach is reported as not decided.",
    "C11": " The CFI directives are evaluated symbolically at every return address and compared with the register state at the return.",
}
checks = []
for i in range(1, 20):
    p = f"C{i:02d}"
    if p == "C14":
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} quick", thorough_cmd=f"python3-vt check.py {p} thorough", level="proof",
            technique="type-level contracts discharged by rustc's coherence, trait, variance and borrow checkers on universally quantified judgements",
            level_note="Each judgement is decided for all instantiations by rustc's type checker on /repo's current sources (trait solver with inference variables for the negative facts). Trusted: rustc's checkers, and the reduction of 'all safe programs' to the listed judgements."))
    else:
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} quick", thorough_cmd=f"python3-vt check.py {p} thorough", level="proof", technique=TECH, level_note=(NOTE.replace("x86-64 and i686 Unix (debug and release MIR, with and without asm-unwind)", "every covered target") if p in ("C18", "C19") else NOTE) + EXTRA.get(p, "")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
    not_applicable=[],
    notes="setup.sh builds the driver and sysroots; check.py <property> [quick|thorough]. Evidence in evidence/, failing obligations and inputs in build/replays/.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
