"""The supported architectures: registers, calling convention, unwinding conventions, and the
semantics of the instructions of the non-x86 ones (the x86 instructions are in asm.py)."""
import re
import z3
from .core import *


class Arch:
    name = ""
    sp, fp, lr = "sp", "", None       # canonical names; lr None: the return address is on the stack
    gprs = ()                          # everything modelled, sp included
    saved = ()                         # callee-saved, as far as modelled
    args = ()
    ret = ""
    bits = 64
    entry_mask, entry_want = 15, 0     # stack pointer at function entry
    asm_mask = 15                      # stack pointer at an asm block
    vec = ()                           # alternatives of registers another context may change
    noalloc = ()                       # never chosen by the compiler for a register-class operand
    dw = {}
    fp_rec = (0, 1)                    # frame record relative to the frame pointer, in words: previous, return address
    comments = ("//", "#")
    slop = 0                           # bytes of stack the return address takes
    stack_align = 16                   # alignment of stack bounds
    teb = None                         # Windows: segment register and fields of the thread environment block
    unwinds = True                     # assembly carries unwind information
    mangle = ""                        # prefix of assembly symbols
    code_low = 0                       # low bits of a pointer to code
    code_align = 1                     # alignment of code addresses, where the crate looks at their low bits

    def regname(self, s):
        """(canonical name, bits) or None"""
        return None

    def canon(self, s):
        r = self.regname(s)
        return r[0] if r else s

    # ------------------------------------------------------------ helpers for instructions
    def get(self, m, s):
        s = s.strip()
        q = re.match(r"^%op(\d+):(\w*)%$", s)
        if q:
            return m.virt_get(int(q.group(1)))
        if self.zero(s):
            return z3.BitVecVal(0, m.gbits)
        r = self.regname(s)
        if r is None or r[0] not in m.regs:
            raise Unsupported(f"register {s}")
        return m.get_reg(r[0], r[1])

    def set(self, m, s, v):
        s = s.strip()
        if re.match(r"^%op(\d+):(\w*)%$", s):
            m.wr(m.parse_op(s), v)
            return
        if self.zero(s):
            return
        r = self.regname(s)
        if r is None or r[0] not in m.regs or r[1] != m.gbits:
            raise Unsupported(f"write to register {s}")
        m.set_reg(r[0], r[1], v)

    def zero(self, s):
        return False

    def isreg(self, s):
        return bool(re.match(r"^%op(\d+):(\w*)%$", s.strip())) or self.zero(s.strip()) or self.regname(s) is not None

    def imm(self, m, s):
        s = s.strip().lstrip("#").strip()
        n = number(s)
        return m.bv(n) if n is not None else m.expr(s)

    def label(self, m, s):
        return m.expr(s.strip())

    def insn(self, m, mn, ops):
        raise NotImplementedError

    def call(self, m, tgt):
        m.set_reg(self.lr, m.gbits, m.code_addr(("asm", m.a_unit, m.a_pos)))
        return m.goto_code(tgt, "call")


def number(s):
    """constant arithmetic"""
    s = s.strip()
    if not s or not re.fullmatch(r"[-+*/()\s0-9a-fA-FxX]+", s) or not re.search(r"\d", s):
        return None
    for t in re.findall(r"[0-9a-zA-Z]+", s):
        if not re.fullmatch(r"0[xX][0-9a-fA-F]+|\d+", t):
            return None
    try:
        return int(eval(s.replace("/", "//"), {"__builtins__": {}}))
    except Exception:
        return None


_X86 = {}
for r in ["ax", "bx", "cx", "dx"]:
    _X86["r" + r] = (r, 64)
    _X86["e" + r] = (r, 32)
    _X86[r] = (r, 16)
    _X86[r[0] + "l"] = (r, 8)
for r in ["si", "di", "bp", "sp"]:
    _X86["r" + r] = (r, 64)
    _X86["e" + r] = (r, 32)
    _X86[r] = (r, 16)
    _X86[r + "l"] = (r, 8)
for i in range(8, 16):
    _X86[f"r{i}"] = (f"r{i}", 64)
    _X86[f"r{i}d"] = (f"r{i}", 32)
    _X86[f"r{i}w"] = (f"r{i}", 16)
    _X86[f"r{i}b"] = (f"r{i}", 8)


class X64(Arch):
    name = "x86_64"
    fp = "bp"
    gprs = tuple(["ax", "bx", "cx", "dx", "si", "di", "bp", "sp"] + [f"r{i}" for i in range(8, 16)])
    saved = ("bx", "bp", "r12", "r13", "r14", "r15")
    args = ("di", "si", "dx", "cx", "r8", "r9")
    ret = "ax"
    entry_want = 8
    noalloc = ("sp", "bp")
    dw = {0: "ax", 1: "dx", 2: "cx", 3: "bx", 4: "si", 5: "di", 6: "bp", 7: "sp", **{i: f"r{i}" for i in range(8, 16)}, 16: "ip"}
    vec = tuple((f"xmm{i}", f"ymm{i}", f"zmm{i}") for i in range(16)) + tuple((f"mm{i}",) for i in range(8)) \
        + tuple((f"st({i})",) for i in range(8)) + tuple((f"k{i}",) for i in range(8)) + tuple((f"zmm{i}",) for i in range(16, 32))
    slop = 8

    def regname(self, s):
        return _X86.get(s.strip().lower())

    def canon(self, s):
        return s


class X86(X64):
    name = "x86"
    bits = 32
    gprs = ("ax", "bx", "cx", "dx", "si", "di", "bp", "sp")
    saved = ("bx", "bp", "si", "di")
    args = ()
    entry_want = 12
    dw = {0: "ax", 1: "cx", 2: "dx", 3: "bx", 4: "sp", 5: "bp", 6: "si", 7: "di", 8: "ip"}
    vec = tuple((f"xmm{i}", f"ymm{i}", f"zmm{i}") for i in range(8)) + tuple((f"mm{i}",) for i in range(8)) \
        + tuple((f"st({i})",) for i in range(8)) + tuple((f"k{i}",) for i in range(8))
    slop = 4

    def regname(self, s):
        r = _X86.get(s.strip().lower())
        return r if r and r[1] <= 32 else None


class X64W(X64):
    """x86-64 Windows; the assembly uses the System V convention there, too"""
    teb = ("gs", {0x0: "el", 0x8: "base", 0x10: "limit", 0x1478: "dealloc", 0x1748: "guar", 0x30: "self"})


class X86W(X86):
    teb = ("fs", {0x0: "el", 0x4: "base", 0x8: "limit", 0xE0C: "dealloc", 0xF78: "guar", 0x18: "self"})
    entry_mask, entry_want, asm_mask, stack_align = 3, 0, 3, 4
    unwinds = False
    mangle = "_"


class A64(Arch):
    name = "aarch64"
    fp, lr = "x29", "x30"
    gprs = tuple(f"x{i}" for i in range(31)) + ("sp",)
    saved = tuple(f"x{i}" for i in range(19, 30))
    args = tuple(f"x{i}" for i in range(8))
    ret = "x0"
    noalloc = ("sp", "x29", "x19", "x18")
    vec = tuple((f"v{i}",) for i in range(32)) + tuple((f"p{i}",) for i in range(16)) + (("ffr",),)
    dw = {**{i: f"x{i}" for i in range(31)}, 31: "sp"}
    comments = ("//",)

    def zero(self, s):
        return s.lower() in ("xzr", "wzr")

    def regname(self, s):
        s = s.strip().lower()
        s = {"lr": "x30", "fp": "x29"}.get(s, s)
        if s == "sp":
            return ("sp", 64)
        q = re.fullmatch(r"([xw])(\d+)", s)
        if q and int(q.group(2)) < 31:
            return ("x" + q.group(2), 64 if q.group(1) == "x" else 32)
        return None

    def ea(self, m, ops):
        """address, and the write-back to perform"""
        q = re.fullmatch(r"\[(.*?)\](!?)", ops[0].strip())
        if not q:
            raise Unsupported(f"address {ops}")
        p = [x.strip() for x in q.group(1).split(",")]
        base = self.get(m, p[0])
        if base.size() != m.W:
            raise Unsupported("narrow base register")
        off = m.bv(0)
        if len(p) == 2:
            off = self.get(m, p[1]) if self.isreg(p[1]) else self.imm(m, p[1])
        elif len(p) > 2:
            raise Unsupported(f"address {ops}")
        if q.group(2):
            a = simp(base + off)
            return a, lambda: self.set(m, p[0], a), p[0]
        if len(ops) > 1:
            post = simp(base + self.imm(m, ops[1]))
            return base, lambda: self.set(m, p[0], post), p[0]
        return simp(base + off), lambda: None, p[0]

    def insn(self, m, mn, ops):
        B = m.gbits
        if mn in ("stp", "ldp"):
            a, wb, base = self.ea(m, ops[2:])
            n = m.pb
            if mn == "stp":
                x, y = self.get(m, ops[0]), self.get(m, ops[1])
                if x.size() != B or y.size() != B:
                    raise Unsupported("narrow stp")
                wb()
                m.mem_write(a, x)
                m.mem_write(simp(a + n), y)
            else:
                x, y = m.mem_read(a).e, m.mem_read(simp(a + n)).e
                if self.canon(ops[0]) == self.canon(ops[1]):
                    raise Unsupported("ldp of one register")
                wb()
                self.set(m, ops[0], x)
                self.set(m, ops[1], y)
        elif mn in ("str", "stur"):
            a, wb, base = self.ea(m, ops[1:])
            x = self.get(m, ops[0])
            if x.size() != B:
                raise Unsupported("narrow str")
            wb()
            m.mem_write(a, x)
        elif mn in ("ldr", "ldur"):
            if len(ops) < 2 or not ops[1].strip().startswith("["):
                raise Unsupported(f"{mn} {ops}")
            a, wb, base = self.ea(m, ops[1:])
            r = self.regname(ops[0])
            if r is None or r[1] != B:
                raise Unsupported("narrow ldr")
            x = m.mem_read(a).e
            wb()
            self.set(m, ops[0], x)
        elif mn == "mov":
            v = self.get(m, ops[1]) if self.isreg(ops[1]) else self.imm(m, ops[1])
            self.set(m, ops[0], v)
        elif mn in ("add", "sub", "and", "orr", "eor") and len(ops) == 3:
            x = self.get(m, ops[1])
            y = self.get(m, ops[2]) if self.isreg(ops[2]) else self.imm(m, ops[2])
            if x.size() != B or y.size() != B:
                raise Unsupported(f"narrow {mn}")
            self.set(m, ops[0], simp({"add": x + y, "sub": x - y, "and": x & y, "orr": x | y, "eor": x ^ y}[mn]))
        elif mn == "ror" and len(ops) == 3:
            n = number(ops[2].strip().lstrip("#"))
            if n is None:
                raise Unsupported("ror by register")
            self.set(m, ops[0], simp(z3.RotateRight(self.get(m, ops[1]), n % B)))
        elif mn == "adr":
            self.set(m, ops[0], self.label(m, ops[1]))
        elif mn == "br":
            return m.goto_code(self.get(m, ops[0]), "br")
        elif mn == "blr":
            return self.call(m, self.get(m, ops[0]))
        elif mn == "bl":
            # a long branch may go through a veneer
            t = self.label(m, ops[0])
            m.set_reg("x16", B, m.sym("veneer", B))
            m.set_reg("x17", B, m.sym("veneer", B))
            return self.call(m, t)
        elif mn == "b":
            t = self.label(m, ops[0])
            if not re.fullmatch(r"\d+[bf]", ops[0].strip()):
                m.set_reg("x16", B, m.sym("veneer", B))
                m.set_reg("x17", B, m.sym("veneer", B))
            return m.goto_code(t, "b")
        elif mn == "ret":
            return m.goto_code(self.get(m, ops[0]) if ops else m.regs["x30"], "ret")
        elif mn in ("cbz", "cbnz"):
            x = self.get(m, ops[0])
            if m.decide((x == 0) if mn == "cbz" else (x != 0), f"asm {mn}"):
                return m.goto_code(self.label(m, ops[1]), mn)
        elif mn in ("cmp", "tst"):
            x = self.get(m, ops[0])
            y = self.get(m, ops[1]) if self.isreg(ops[1]) else self.imm(m, ops[1])
            if m.a_act is not None:
                m.ob("asm/options", "PRESERVES_FLAGS" not in m.a_act.block.options, f"{mn} changes the flags")
            m.a_flags = (mn, x, y, simp(x - y if mn == "cmp" else x & y))
        elif mn in ("b.eq", "b.ne", "beq", "bne", "b.lo", "b.hs", "b.hi", "b.ls"):
            if m.a_flags is None:
                raise Unsupported("conditional branch on unknown flags")
            op, x, y, r = m.a_flags
            k = mn[-2:]
            if k in ("eq", "ne"):
                c = (r == 0) if k == "eq" else (r != 0)
            elif op == "cmp":
                c = {"lo": z3.ULT(x, y), "hs": z3.UGE(x, y), "hi": z3.UGT(x, y), "ls": z3.ULE(x, y)}[k]
            else:
                raise Unsupported(f"{mn} after {op}")
            if m.decide(c, f"asm {mn}"):
                return m.goto_code(self.label(m, ops[0]), mn)
        elif mn in ("nop", "dmb", "dsb", "isb", "yield"):
            pass
        elif mn in ("brk", "udf", "hlt"):
            m.fail("asm/trap-instruction", f"{mn} is executed in {m.a_unit}")
        else:
            raise Unsupported(f"instruction {mn}")
        return False


class RV(Arch):
    fp, lr = "x8", "x1"
    gprs = ("x1", "sp") + tuple(f"x{i}" for i in range(5, 32)) + tuple(f"f{i}" for i in (8, 9, *range(18, 28)))
    saved = ("x8", "x9") + tuple(f"x{i}" for i in range(18, 28)) + tuple(f"f{i}" for i in (8, 9, *range(18, 28)))
    args = tuple(f"x{i}" for i in range(10, 18))
    ret = "x10"
    noalloc = ("sp", "x8", "x9")
    vec = tuple((f"f{i}",) for i in (*range(0, 8), *range(10, 18), *range(28, 32))) + tuple((f"v{i}",) for i in range(32))
    dw = {**{i: f"x{i}" for i in range(32)}, 2: "sp", **{32 + i: f"f{i}" for i in range(32)}}
    fp_rec = (-2, -1)
    ABI = {"zero": 0, "ra": 1, "sp": 2, "gp": 3, "tp": 4, "t0": 5, "t1": 6, "t2": 7, "s0": 8, "fp": 8, "s1": 9,
           **{f"a{i}": 10 + i for i in range(8)}, **{f"s{i}": 16 + i for i in range(2, 12)}, **{f"t{i}": 25 + i for i in range(3, 7)}}
    FABI = {**{f"ft{i}": i for i in range(8)}, "fs0": 8, "fs1": 9, **{f"fa{i}": 10 + i for i in range(8)},
            **{f"fs{i}": 16 + i for i in range(2, 12)}, **{f"ft{i}": 20 + i for i in range(8, 12)}}

    def zero(self, s):
        return s.lower() in ("zero", "x0")

    def regname(self, s):
        s = s.strip().lower()
        if s in self.FABI:
            return (f"f{self.FABI[s]}", self.bits)
        if re.fullmatch(r"f\d+", s) and int(s[1:]) < 32:
            return (s, self.bits)
        n = self.ABI.get(s)
        if n is None and re.fullmatch(r"x\d+", s):
            n = int(s[1:])
        if n is None or n > 31:
            return None
        return ("sp" if n == 2 else f"x{n}", self.bits)

    def insn(self, m, mn, ops):
        B = m.gbits
        if any(re.fullmatch(r"f[tsa]?\d+", o.strip().lower()) for o in ops):
            raise Unsupported(f"{mn} {ops}")

        def ea(s):
            q = re.fullmatch(r"(.*)\(([^()]*)\)", s.strip())
            if not q:
                raise Unsupported(f"address {s}")
            off = self.imm(m, q.group(1)) if q.group(1).strip() else m.bv(0)
            return simp(self.get(m, q.group(2)) + off)
        word = "d" if B == 64 else "w"
        if mn == "s" + word:
            m.mem_write(ea(ops[1]), self.get(m, ops[0]))
        elif mn == "l" + word:
            self.set(m, ops[0], m.mem_read(ea(ops[1])).e)
        elif mn == "mv":
            self.set(m, ops[0], self.get(m, ops[1]))
        elif mn == "li":
            self.set(m, ops[0], self.imm(m, ops[1]))
        elif mn in ("add", "sub", "and", "or", "xor", "addi", "andi", "ori", "xori") and len(ops) == 3:
            x = self.get(m, ops[1])
            y = self.get(m, ops[2]) if self.isreg(ops[2]) else self.imm(m, ops[2])
            k = mn[:-1] if mn.endswith("i") else mn
            self.set(m, ops[0], simp({"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y}[k]))
        elif mn in ("lla", "la"):
            self.set(m, ops[0], self.label(m, ops[1]))
        elif mn == "jr":
            return m.goto_code(self.get(m, ops[0]), "jr")
        elif mn == "jalr":
            if len(ops) == 1:
                tgt, rd = self.get(m, ops[0]), "ra"
            else:
                rd = ops[0]
                tgt = ea(ops[1]) if "(" in ops[1] else simp(self.get(m, ops[1]) + (self.imm(m, ops[2]) if len(ops) > 2 else 0))
            self.set(m, rd, m.code_addr(("asm", m.a_unit, m.a_pos)))
            return m.goto_code(tgt, "jalr")
        elif mn == "call":
            return self.call(m, self.label(m, ops[0]))
        elif mn == "tail":
            t = self.label(m, ops[0])
            m.set_reg("x6", B, m.sym("tail", B))
            return m.goto_code(t, "tail")
        elif mn == "j":
            return m.goto_code(self.label(m, ops[0]), "j")
        elif mn == "ret":
            return m.goto_code(m.regs["x1"], "ret")
        elif mn in ("beqz", "bnez"):
            x = self.get(m, ops[0])
            if m.decide((x == 0) if mn == "beqz" else (x != 0), f"asm {mn}"):
                return m.goto_code(self.label(m, ops[1]), mn)
        elif mn in ("beq", "bne", "bltu", "bgeu"):
            x, y = self.get(m, ops[0]), self.get(m, ops[1])
            if m.decide({"beq": x == y, "bne": x != y, "bltu": z3.ULT(x, y), "bgeu": z3.UGE(x, y)}[mn], f"asm {mn}"):
                return m.goto_code(self.label(m, ops[2]), mn)
        elif mn in ("nop", "fence"):
            pass
        elif mn in ("unimp", "ebreak", "c.unimp"):
            m.fail("asm/trap-instruction", f"{mn} is executed in {m.a_unit}")
        else:
            raise Unsupported(f"instruction {mn}")
        return False


class RV64(RV):
    name = "riscv64"


class RV32(RV):
    name = "riscv32"
    bits = 32


class LA(Arch):
    name = "loongarch64"
    fp, lr = "r22", "r1"
    gprs = ("r1", "sp") + tuple(f"r{i}" for i in range(4, 32) if i != 21) + tuple(f"f{i}" for i in range(24, 32))
    saved = ("r22",) + tuple(f"r{i}" for i in range(23, 32)) + tuple(f"f{i}" for i in range(24, 32))
    args = tuple(f"r{i}" for i in range(4, 12))
    ret = "r4"
    noalloc = ("sp", "r22", "r31")
    vec = tuple((f"f{i}",) for i in range(24))
    dw = {**{i: f"r{i}" for i in range(32)}, 3: "sp", **{32 + i: f"f{i}" for i in range(32)}}
    fp_rec = (-2, -1)
    comments = ("#", "//")
    ABI = {"zero": 0, "ra": 1, "tp": 2, "sp": 3, **{f"a{i}": 4 + i for i in range(8)}, **{f"t{i}": 12 + i for i in range(9)},
           "fp": 22, "s9": 22, **{f"s{i}": 23 + i for i in range(9)}}

    def zero(self, s):
        return s.lower() in ("$zero", "$r0")

    def regname(self, s):
        s = s.strip().lower()
        if not s.startswith("$"):
            return None
        s = s[1:]
        q = re.fullmatch(r"f([asti]?)(\d+)", s)
        if q and s != "fp":
            n = int(q.group(2)) + {"": 0, "a": 0, "t": 8, "s": 24}.get(q.group(1), 99)
            return (f"f{n}", 64) if n < 32 else None
        n = self.ABI.get(s)
        if n is None and re.fullmatch(r"r\d+", s):
            n = int(s[1:])
        if n is None or n > 31:
            return None
        return ("sp" if n == 3 else f"r{n}", 64)

    def insn(self, m, mn, ops):
        B = m.gbits
        if any(re.fullmatch(r"\$f[asti]?\d+", o.strip().lower()) for o in ops):
            raise Unsupported(f"{mn} {ops}")
        if mn == "st.d":
            m.mem_write(simp(self.get(m, ops[1]) + self.imm(m, ops[2])), self.get(m, ops[0]))
        elif mn == "ld.d":
            self.set(m, ops[0], m.mem_read(simp(self.get(m, ops[1]) + self.imm(m, ops[2]))).e)
        elif mn == "move":
            self.set(m, ops[0], self.get(m, ops[1]))
        elif mn in ("li.d", "li.w"):
            self.set(m, ops[0], self.imm(m, ops[1]))
        elif mn in ("add.d", "sub.d", "and", "or", "xor", "addi.d", "andi", "ori", "xori") and len(ops) == 3:
            x = self.get(m, ops[1])
            y = self.get(m, ops[2]) if self.isreg(ops[2]) else self.imm(m, ops[2])
            k = {"add.d": "add", "addi.d": "add", "sub.d": "sub", "andi": "and", "ori": "or", "xori": "xor"}.get(mn, mn)
            self.set(m, ops[0], simp({"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y}[k]))
        elif mn in ("la.pcrel", "la.local", "pcaddi"):
            if mn == "pcaddi":
                raise Unsupported(mn)
            self.set(m, ops[0], self.label(m, ops[1]))
        elif mn == "jr":
            return m.goto_code(self.get(m, ops[0]), "jr")
        elif mn == "ret":
            return m.goto_code(m.regs["r1"], "ret")
        elif mn == "jirl":
            tgt = simp(self.get(m, ops[1]) + self.imm(m, ops[2]))
            self.set(m, ops[0], m.code_addr(("asm", m.a_unit, m.a_pos)))
            return m.goto_code(tgt, "jirl")
        elif mn == "bl":
            return self.call(m, self.label(m, ops[0]))
        elif mn in ("call36",):
            t = self.label(m, ops[0])
            return self.call(m, t)
        elif mn == "b":
            return m.goto_code(self.label(m, ops[0]), "b")
        elif mn in ("beqz", "bnez"):
            x = self.get(m, ops[0])
            if m.decide((x == 0) if mn == "beqz" else (x != 0), f"asm {mn}"):
                return m.goto_code(self.label(m, ops[1]), mn)
        elif mn in ("beq", "bne", "bltu", "bgeu"):
            x, y = self.get(m, ops[0]), self.get(m, ops[1])
            if m.decide({"beq": x == y, "bne": x != y, "bltu": z3.ULT(x, y), "bgeu": z3.UGE(x, y)}[mn], f"asm {mn}"):
                return m.goto_code(self.label(m, ops[2]), mn)
        elif mn in ("nop", "dbar"):
            pass
        elif mn == "break":
            m.fail("asm/trap-instruction", f"{mn} is executed in {m.a_unit}")
        else:
            raise Unsupported(f"instruction {mn}")
        return False


class ARM(Arch):
    """the ARM instruction set (not Thumb)"""
    name = "arm"
    lr = "r14"
    bits = 32
    gprs = tuple(f"r{i}" for i in range(13)) + ("sp", "r14") + tuple(f"q{i}" for i in range(4, 8))
    args = ("r0", "r1", "r2", "r3")
    ret = "r0"
    entry_mask, asm_mask = 7, 7
    dw = {**{i: f"r{i}" for i in range(15)}, 13: "sp"}
    vec = tuple((f"s{i}", f"d{i // 2}", f"q{i // 4}") for i in range(16)) + tuple((f"d{i}", f"q{i // 2}") for i in range(16, 32))
    comments = ("//", "@")
    code_align = 4

    def __init__(self, fp="r11"):
        self.fp = fp
        self.saved = tuple(f"r{i}" for i in range(4, 12)) + tuple(f"q{i}" for i in range(4, 8))
        self.noalloc = ("sp", fp, "r6")

    def regname(self, s):
        s = s.strip().lower()
        s = {"fp": "r11", "ip": "r12", "sp": "r13", "lr": "r14", "pc": "r15", "sb": "r9", "sl": "r10"}.get(s, s)
        if re.fullmatch(r"q[4-7]", s):
            return (s, 32)
        q = re.fullmatch(r"r(\d+)", s)
        if q and int(q.group(1)) < 16:
            return ("sp" if s == "r13" else s, 32)
        return None

    def reglist(self, s):
        q = re.fullmatch(r"\{+(.*?)\}+", s.strip())
        if not q:
            raise Unsupported(f"register list {s}")
        out = []
        for x in q.group(1).split(","):
            if "-" in x:
                raise Unsupported(f"register list {s}")
            out.append(self.canon(x.strip()))
        num = lambda r: 13 if r == "sp" else int(r[1:])
        return sorted(out, key=num)

    def setpc(self, m, s, v, how):
        """write a register; true when it was the program counter"""
        if self.canon(s) == "r15":
            return m.goto_code(v, how)
        self.set(m, s, v)
        return None

    def insn(self, m, mn, ops):
        if any(re.fullmatch(r"[qds]\d+", o.strip().lower()) for o in ops):
            raise Unsupported(f"{mn} {ops}")
        if mn in ("adds", "subs", "movs", "ands", "cmp") and m.a_act is not None:
            m.ob("asm/options", "PRESERVES_FLAGS" not in m.a_act.block.options, f"{mn} changes the flags")
        if mn == "push":
            rl = self.reglist(ops[0])
            vals = [self.get(m, r) for r in rl]
            if "sp" in rl or "r15" in rl:
                raise Unsupported("push of sp or pc")
            if m.a_act is not None:
                m.ob("asm/options", "NOSTACK" not in m.a_act.block.options, f"{m.a_act.block} declares nostack but pushes")
            m.regs["sp"] = simp(m.regs["sp"] - 4 * len(rl))
            for i, v in enumerate(vals):
                m.mem_write(simp(m.regs["sp"] + 4 * i), v)
        elif mn == "pop":
            rl = self.reglist(ops[0])
            if "sp" in rl:
                raise Unsupported("pop of sp")
            vals = [m.mem_read(simp(m.regs["sp"] + 4 * i)).e for i in range(len(rl))]
            m.regs["sp"] = simp(m.regs["sp"] + 4 * len(rl))
            for r, v in zip(rl, vals):
                if r != "r15":
                    self.set(m, r, v)
            if rl[-1] == "r15":
                return m.goto_code(vals[-1], "pop")
        elif mn in ("str", "ldr"):
            a, wb, base = A64.ea(self, m, ops[1:])
            if mn == "str":
                x = self.get(m, ops[0])
                wb()
                m.mem_write(a, x)
            else:
                x = m.mem_read(a).e
                wb()
                r = self.setpc(m, ops[0], x, "ldr")
                if r is not None:
                    return r
        elif mn in ("mov", "movs"):
            v = self.get(m, ops[1]) if self.isreg(ops[1]) else self.imm(m, ops[1])
            r = self.setpc(m, ops[0], v, mn)
            if r is not None:
                return r
        elif mn in ("add", "adds", "sub", "subs", "and", "orr", "eor") and len(ops) in (2, 3):
            o = ops if len(ops) == 3 else [ops[0], ops[0], ops[1]]
            x = self.get(m, o[1])
            y = self.get(m, o[2]) if self.isreg(o[2]) else self.imm(m, o[2])
            k = mn[:3]
            self.set(m, o[0], simp({"add": x + y, "sub": x - y, "and": x & y, "orr": x | y, "eor": x ^ y}[k]))
        elif mn == "adr":
            # a label stands for the address itself, without the bit that selects Thumb
            self.set(m, ops[0], simp(self.label(m, ops[1]) - self.code_low))
        elif mn == "bx":
            return m.goto_code(self.get(m, ops[0]), "bx")
        elif mn == "blx" and self.isreg(ops[0]):
            return self.call(m, self.get(m, ops[0]))
        elif mn in ("bl", "blx"):
            t = self.label(m, ops[0])
            m.set_reg("r12", 32, m.sym("veneer", 32))
            return self.call(m, t)
        elif mn == "b":
            t = self.label(m, ops[0])
            if not re.fullmatch(r"\d+[bf]", ops[0].strip()):
                m.set_reg("r12", 32, m.sym("veneer", 32))
            return m.goto_code(t, "b")
        elif mn in ("ror",) and len(ops) == 3:
            n = number(ops[2].strip().lstrip("#"))
            self.set(m, ops[0], simp(z3.RotateRight(self.get(m, ops[1]), n % 32)))
        elif mn == "nop":
            pass
        elif mn in ("udf", "bkpt"):
            m.fail("asm/trap-instruction", f"{mn} is executed in {m.a_unit}")
        else:
            raise Unsupported(f"instruction {mn}")
        return False


class Thumb(ARM):
    """Thumb-2: pointers to code have their lowest bit set; the frame pointer is r7"""
    code_align, code_low = 2, 1

    def __init__(self):
        super().__init__("r7")


class Thumb1(Thumb):
    """the 16-bit Thumb instructions (and BL/BLX): most operands are r0 to r7, most immediates are small and positive"""

    def encodable(self, mn, ops):
        def hi(o):
            # (the register class of an operand is r0 to r7 in Thumb-1)
            return self.isreg(o) and not o.strip().startswith("%op") and self.canon(o) not in self.low

        def num(o):
            return number(o.strip().lstrip("#"))
        if mn in ("push", "pop"):
            extra = {"push": "r14", "pop": "r15"}[mn]
            return all(r in self.low or r == extra for r in self.reglist(ops[0]))
        if mn in ("ldr", "str"):
            q = re.fullmatch(r"\[\s*([^,\]]+?)\s*(?:,\s*#?([^\],]+?)\s*)?\]", ops[1].strip())
            if len(ops) != 2 or hi(ops[0]) or not q or not self.isreg(q.group(1)):
                return False
            if self.isreg(q.group(2) or ""):
                return not hi(q.group(1)) and not hi(q.group(2))
            n = num(q.group(2)) if q.group(2) else 0
            return n % 4 == 0 and (0 <= n <= 124 and not hi(q.group(1)) or 0 <= n <= 1020 and self.canon(q.group(1)) == "sp")
        if mn == "mov":
            return self.isreg(ops[1])
        if mn == "movs":
            return not hi(ops[0]) and (not hi(ops[1]) if self.isreg(ops[1]) else 0 <= num(ops[1]) <= 255)
        if mn in ("adds", "subs"):
            o = ops if len(ops) == 3 else [ops[0], ops[0], ops[1]]
            if any(hi(x) for x in o):
                return False
            return self.isreg(o[2]) or 0 <= num(o[2]) <= (255 if self.canon(o[0]) == self.canon(o[1]) else 7)
        if mn in ("add", "sub"):
            o = ops if len(ops) == 3 else [ops[0], ops[0], ops[1]]
            if self.isreg(o[2]):
                return mn == "add" and self.canon(o[0]) == self.canon(o[1])
            n = num(o[2])
            if self.canon(o[0]) == "sp" and self.canon(o[1]) == "sp":
                return n % 4 == 0 and 0 <= n <= 508
            return mn == "add" and self.canon(o[1]) == "sp" and not hi(o[0]) and n % 4 == 0 and 0 <= n <= 1020
        if mn == "adr":
            return not hi(ops[0])
        return mn in ("bx", "blx", "bl", "b", "nop", "udf", "bkpt")

    low = tuple(f"r{i}" for i in range(8))

    def insn(self, m, mn, ops):
        if not self.encodable(mn, ops):
            raise Unsupported(f"{mn} {', '.join(ops)}: not a Thumb-1 instruction")
        return super().insn(m, mn, ops)


def arch_of(target, dump=None):
    t = target.split("-")[0]
    win = "-windows-" in target
    if t == "x86_64":
        return X64W() if win else X64()
    if t in ("i686", "i586"):
        return X86W() if win else X86()
    if t.startswith("aarch64"):
        return A64()
    if t.startswith("riscv64"):
        return RV64()
    if t.startswith("riscv32"):
        return RV32()
    if t.startswith("loongarch64"):
        return LA()
    if t == "thumbv6":
        return Thumb1()
    if t.startswith("thumb"):
        return Thumb()
    if t.startswith("arm"):
        return ARM()
    raise Unsupported(f"architecture {t}")
