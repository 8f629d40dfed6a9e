"""Which scenarios, configurations and obligations decide which property."""

# configuration: (target, release, features)
X64D = ("x86_64-unknown-linux-gnu", False, ("default-stack", "unwind"))
X64R = ("x86_64-unknown-linux-gnu", True, ("default-stack", "unwind"))
X86D = ("i686-unknown-linux-gnu", False, ("default-stack", "unwind"))
X86R = ("i686-unknown-linux-gnu", True, ("default-stack", "unwind"))
NU64D = ("x86_64-unknown-linux-gnu", False, ("default-stack",))
NU64R = ("x86_64-unknown-linux-gnu", True, ("default-stack",))
NU86D = ("i686-unknown-linux-gnu", False, ("default-stack",))
NU86R = ("i686-unknown-linux-gnu", True, ("default-stack",))
AU64D = ("x86_64-unknown-linux-gnu", False, ("default-stack", "unwind", "asm-unwind"))
AU64R = ("x86_64-unknown-linux-gnu", True, ("default-stack", "unwind", "asm-unwind"))
AU86D = ("i686-unknown-linux-gnu", False, ("default-stack", "unwind", "asm-unwind"))
AU86R = ("i686-unknown-linux-gnu", True, ("default-stack", "unwind", "asm-unwind"))
_OTHER = {"A64": "aarch64-unknown-linux-gnu", "RV64": "riscv64gc-unknown-linux-gnu", "RV32": "riscv32gc-unknown-linux-gnu",
          "LA64": "loongarch64-unknown-linux-gnu", "ARM": "armv7-unknown-linux-gnueabihf", "T32": "thumbv7neon-unknown-linux-gnueabihf",
          "T16": "thumbv6-unknown-linux-gnueabi"}
for _k, _t in _OTHER.items():
    globals()[_k + "D"] = (_t, False, ("default-stack", "unwind"))
    globals()[_k + "R"] = (_t, True, ("default-stack", "unwind"))
    globals()["AU" + _k] = (_t, False, ("default-stack", "unwind", "asm-unwind"))
    globals()["NU" + _k] = (_t, False, ("default-stack",))
W64D = ("x86_64-pc-windows-msvc", False, ("default-stack", "unwind"))
W64R = ("x86_64-pc-windows-msvc", True, ("default-stack", "unwind"))
W86D = ("i686-pc-windows-msvc", False, ("default-stack", "unwind"))
W86R = ("i686-pc-windows-msvc", True, ("default-stack", "unwind"))
NUW64 = ("x86_64-pc-windows-msvc", False, ("default-stack",))
NUW86 = ("i686-pc-windows-msvc", False, ("default-stack",))
AUW64 = ("x86_64-pc-windows-msvc", False, ("default-stack", "unwind", "asm-unwind"))
AUW86 = ("i686-pc-windows-msvc", False, ("default-stack", "unwind", "asm-unwind"))
ALL = (X64D, X64R, X86D, X86R, AU64D, AU86R)
OTHERS = (A64D, RV64D, RV32D, LA64D, ARMD, T32D, T16D, AUA64, AURV64, AURV32, AULA64, AUARM, AUT32, AUT16)
WINDOWS = (W64D, W86D, AUW64, AUW86)
NU = (NU64D, NU64R, NU86D, NU86R)
QUICK_NU = (NU64D,)  # also in the quick tier of the properties that are not about unwinding itself

MAIN = "root_main"
DEF = "root_default"
ROOT = {"default_new": DEF, "default_default": DEF, "default_co": DEF}

# Obligations that belong to the named properties only.  An obligation not listed here supports
# every property (memory safety, control flow, ABI, ownership: nothing holds without them).
OWNERS = [
    ("lifecycle/", "C03 C05 C13 C15 C10"),
    ("value/", "C01 C03 C05 C08 C09 C10 C15 C17"),
    ("closure/", "C05 C06 C10 C12 C13 C15"),
    ("panic/", "C04 C05 C08 C09 C10 C13 C17"),
    ("unwind/registers", "C11 C04 C05 C15"),
    ("unwind/cfa", "C11 C04 C05 C15"),
    ("unwind/fde", "C11 C04 C05 C15"),
    ("unwind/return-address", "C11 C04 C05 C15"),
    ("unwind/frame-pointer-chain", "C11 C15"),
    ("unwind/clean", "C05 C03 C13 C04 C17"),
    ("unwind/noop", "C05 C03 C13 C15"),
    ("unwind/swallowed", "C05 C03"),
    ("unwind/reached-body", "C05 C03 C13"),
    ("unwind/never-a-value", "C05 C03 C13"),
    ("unwind/refused", "C15"),
    ("into_stack/", "C13 C05 C03 C15"),
    ("drop/", "C05 C13 C15 C03 C06"),
    ("own/stack", "C13 C05 C06 C08 C12 C15 C10"),
    ("own/leak", "C01 C04 C05 C06 C08 C09 C10 C13 C15"),
    ("stack/", "C07 C13 C06 C12"),
    ("os/", "C07 C13"),
    ("valgrind/", "C16"),
    ("trap/", "C10"),
    ("on_stack/", "C08 C12 C15"),
    ("on_parent/", "C09 C12 C15 C17"),
    ("teb/", "C18"),
    ("switch/vector-registers", "C02 C08 C09 C10 C15 C17"),
]


# these promise every other guarantee on further targets
EVERYTHING = ("C18", "C19")


def others(pid):
    """prefixes of obligations that only concern other properties than pid"""
    if pid in EVERYTHING:
        return ()
    return tuple(pre for pre, ps in OWNERS if pid not in ps.split())


LIFE_COVERS = ("resume-yield", "resume-return", "resume-panicked", "suspend-returned")

# property -> (configs, scenarios, covers each configuration must reach, unwind)
PROPS = {
    "C01": dict(scen="life interleaved nested accessors trapped", covers=("resume-yield", "resume-return", "suspend-returned", "accessor", "induction")),
    "C02": dict(scen="life interleaved nested forced onstack onparent", covers=LIFE_COVERS + ("induction", "suspend-unwound")),
    "C03": dict(scen="life layouts forced dropped intostack reset closure_drop_panics nested trapped forced_destructor",
                covers=LIFE_COVERS + ("resume-completed", "induction", "force_unwind-unstarted", "force_unwind-suspended", "force_unwind-done", "force_reset")),
    "C04": dict(scen="life nested foreign_unwind onstack onstack_in_co onparent trapped onstack_unwound forced_destructor", covers=("resume-panicked", "on_stack-panicked", "on_parent-panicked")),
    "C05": dict(scen="forced dropped foreign_unwind closure_drop_panics intostack layouts nested forced_destructor onstack_unwound",
                covers=("destructor-suspended", "forced-clean", "forced-other-panic", "forced-swallowed-return", "forced-swallowed-yield", "suspend-unwound",
                        "drop-suspended", "drop-unstarted", "drop-done", "force_unwind-unstarted", "force_unwind-done")),
    "C06": dict(scen="layouts closure_drop_panics dropped intostack stack_drop_panics default_co trapped",
                covers=("refused", "drop-unstarted", "resume-return", "force_unwind-unstarted", "co-new", "trap-refused")),
    "C07": dict(scen="default_new default_default default_co",
                covers=("default-new", "default-new-fails", "default-new-panics", "default-default", "default-default-panics", "default-drop", "co-new", "co-new-panics")),
    "C08": dict(scen="onstack onstack_in_co onstack_unwound onparent_in_onstack", covers=("on_stack-returned", "on_stack-panicked")),
    "C09": dict(scen="onparent onparent_nested onparent_in_onstack", covers=("on_parent-returned", "on_parent-panicked")),
    "C10": dict(scen="trapped bounds", covers=("trap", "trap-refused", "trap-bounds", "trap-bounds-any", "resume-return", "resume-panicked")),
    "C11": dict(scen="life nested interleaved onstack onstack_in_co onparent onparent_nested trapped forced onstack_unwound onparent_in_onstack",
                covers=LIFE_COVERS + ("on_stack-returned", "on_parent-returned", "trap", "suspend-unwound")),
    "C12": dict(scen="life layouts closure_drop_panics stack_drop_panics forced dropped intostack reset nested interleaved onstack onstack_in_co onparent onparent_nested trapped default_co forced_destructor onstack_unwound onparent_in_onstack",
                covers=LIFE_COVERS + ("refused", "on_stack-returned", "on_parent-returned", "trap", "force_reset", "into_stack", "co-new")),
    "C13": dict(scen="layouts closure_drop_panics stack_drop_panics dropped intostack reset refstack onstack default_co",
                covers=("into_stack", "into_stack-refused-suspended", "into_stack-refused-unstarted", "drop-suspended", "drop-unstarted", "drop-done", "refused", "ref_stack", "drop-stack-panics", "on_stack-returned")),
    "C15": dict(scen="life layouts reset nested interleaved onstack onstack_in_co onparent onparent_nested trapped accessors refstack nu_forced closure_drop_panics default_co onparent_in_onstack",
                configs=NU, unwind=False,
                covers=("resume-yield", "resume-return", "suspend-returned", "panic-aborts", "force_unwind-refused", "on_stack-returned", "on_parent-returned", "trap", "into_stack", "drop-abort-refused", "drop-unstarted", "drop-done")),
    "C16": dict(scen="default_new default_default default_co", covers=("vg-register", "vg-deregister", "default-new", "default-new-fails", "co-new")),
    "C17": dict(scen="nested interleaved foreign_unwind onstack_in_co onparent_nested forced_destructor onparent_in_onstack", covers=("resume-yield", "resume-return", "suspend-returned", "on_parent-returned", "on_stack-returned")),
    "C18": dict(scen="life layouts closure_drop_panics stack_drop_panics forced dropped intostack reset refstack nested interleaved foreign_unwind onstack onstack_in_co onparent onparent_nested trapped bounds forced_destructor onstack_unwound onparent_in_onstack default_new default_default default_co",
                configs=WINDOWS + (W64R, W86R, NUW64, NUW86), runs=False,
                covers=LIFE_COVERS + ("refused", "induction", "suspend-unwound", "resume-panicked", "on_stack-returned", "on_parent-returned", "trap", "force_reset", "into_stack",
                                      "forced-clean", "forced-other-panic", "forced-swallowed-return", "drop-suspended", "drop-unstarted", "drop-done",
                                      "teb-remembered", "teb-default-stack", "default-new", "default-new-fails", "default-new-panics", "co-new"),
                # asm-unwind only changes how a suspended coroutine is unwound; a release build drops the debug assertions and overflow checks
                some={**dict.fromkeys((AUW64, AUW86), ("life forced dropped nested foreign_unwind forced_destructor onstack_unwound",
                                                       LIFE_COVERS + ("suspend-unwound", "forced-clean", "forced-other-panic", "forced-swallowed-return", "drop-suspended", "teb-remembered"))),
                      **dict.fromkeys((W64R, W86R), ("life forced layouts onstack onparent trapped default_new default_default",
                                                     LIFE_COVERS + ("refused", "suspend-unwound", "forced-clean", "on_stack-returned", "on_parent-returned", "trap", "default-new", "default-new-fails")))}),
    "C19": dict(scen="life layouts closure_drop_panics forced dropped intostack reset nested interleaved foreign_unwind onstack onstack_in_co onparent onparent_nested trapped forced_destructor onstack_unwound onparent_in_onstack",
                configs=OTHERS, thorough_configs=(A64R, RV64R, RV32R, LA64R, ARMR, T32R, T16R), thorough_nounwind=(NUA64, NURV64, NURV32, NULA64, NUARM, NUT32, NUT16), runs=False,
                covers=LIFE_COVERS + ("refused", "induction", "suspend-unwound", "resume-panicked", "on_stack-returned", "on_parent-returned", "trap", "force_reset", "into_stack",
                                      "forced-clean", "forced-other-panic", "forced-swallowed-return", "drop-suspended", "drop-unstarted", "drop-done")),
}

NU_SCEN = PROPS["C15"]["scen"].split() + ["default_new", "default_default", "bounds", "intostack", "dropped"]
NU_COVERS = PROPS["C15"]["covers"] + ("resume-completed", "induction", "drop-done", "drop-unstarted", "refused", "force_reset", "accessor", "ref_stack",
                                      "trap-refused", "trap-bounds", "trap-bounds-any", "default-new", "default-new-fails", "default-new-panics",
                                      "default-default", "default-default-panics", "default-drop", "co-new", "co-new-panics", "vg-register", "vg-deregister")
