"""Semantics of the inline / global assembly of /repo (x86 and x86-64, Intel syntax), of
the call ABIs at the asm boundary, and of DWARF CFI and frame-pointer unwinding."""
import re
import z3
from .core import *
from .arch import arch_of, number

FLAG_OPS = {"add", "sub", "and", "or", "xor", "cmp", "test", "inc", "dec", "neg", "shl", "shr", "sar", "rol", "ror", "sal"}


EHABI = (".fnstart", ".fnend", ".save", ".setfp", ".movsp", ".pad", ".cantunwind", ".personality", ".handlerdata")


class Unit:
    """A piece of assembly text."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind     # kind: inline | global
        self.insns = []                        # (mnemonic, [operand strings])
        self.cfi = []                          # (index, directive, args)
        self.eh = []                           # the same for the ARM exception handling ABI
        self.seh = []                          # the same for Windows
        self.numlabels = {}                    # n -> [positions]
        self.named = {}
        self.equ = {}
        self.thumb = None
        self.ops = []                          # inline operands
        self.options = set()

    def __repr__(self):
        return self.name


def split_ops(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "[{":
            d += 1
        elif c in "]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_unit(unit, text, comments=("//", "#")):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    lines = text.split("\n")
    for c in comments:
        lines = [x.split(c)[0] for x in lines]
    for line in re.split(r"[\n;]", "\n".join(lines)):
        line = line.strip()
        while True:
            m = re.match(r"^([A-Za-z_.$][\w.$@]*|\d+):\s*", line)
            if not m:
                break
            n = m.group(1)
            if n.isdigit():
                unit.numlabels.setdefault(n, []).append(len(unit.insns))
            else:
                unit.named[n] = len(unit.insns)
            line = line[m.end():].strip()
        if not line:
            continue
        m = re.match(r"^(\.?[A-Za-z][\w.]*)\s*(.*)$", line)
        if not m:
            raise Unsupported(f"asm line {line!r}")
        mn, rest = m.group(1).lower(), m.group(2).strip()
        if mn == ".cfi_sections":
            continue
        if mn in (".thumb", ".thumb_func", ".arm"):
            unit.thumb = mn != ".arm"
            continue
        if mn.startswith(".cfi_"):
            unit.cfi.append((len(unit.insns), mn, split_ops(rest)))
        elif mn == ".equ" or mn == ".set":
            a = split_ops(rest)
            unit.equ[a[0]] = (a[1], len(unit.insns))
        elif mn in (".balign", ".align", ".p2align", ".globl", ".global", ".type", ".size", ".text", ".hidden",
                    ".def", ".scl", ".endef", ".section", ".private_extern", ".alt_entry", ".weak", ".local", ".pushsection", ".popsection"):
            if mn in (".section", ".pushsection") and not rest.startswith(".text"):
                raise Unsupported(f"asm section {rest}")
        elif mn.startswith(".seh_"):
            unit.seh.append((len(unit.insns), mn, split_ops(rest)))
        elif mn in EHABI:
            unit.eh.append((len(unit.insns), mn, split_ops(rest)))
        elif mn.startswith("."):
            raise Unsupported(f"asm directive {mn}")
        else:
            unit.insns.append((mn, split_ops(rest)))
    return unit


class AsmMixin:
    def init_asm(self):
        self.arch = arch_of(self.prog.target)
        self.x86 = self.arch.name in ("x86_64", "x86")
        self.gprs = self.arch.gprs
        self.gbits = self.arch.bits
        self.codesym = {}
        self.units = {}
        self.globals_ = {}
        self.a_unit = None
        self.a_pos = 0
        self.a_act = None
        self.a_entry = None
        self.a_flags = None
        self.a_hist = []
        self.asm_live = {}
        for n, g in enumerate(self.prog.dump["global_asm"]):
            u = Unit(f"global_asm@{g['span']}", "global")
            u.options = opts(g["options"])
            if "ATT_SYNTAX" in u.options:
                continue
            u.text = self.join_template(g["template"], g["operands"], u)
            try:
                self.parse(u)
            except Unsupported as e:
                self.bad_global = str(e)
                continue
            for s, p in u.named.items():
                self.globals_[s] = (u, p)

    def parse(self, u):
        parse_unit(u, u.text, self.arch.comments)
        if u.thumb is not None and u.thumb != bool(self.arch.code_low):
            raise Unsupported("switch between ARM and Thumb code")

    # ------------------------------------------------------------ code addresses
    def code_addr(self, target):
        """bit-vector symbol for a code location"""
        if target[0] == "asm":
            nm = f"code<{target[1].name}+{target[2]}>"
        else:
            nm = f"code<fn#{target[1].id}:{target[1].name}>"
        if nm not in self.codesym:
            self.codesym[nm] = target
            s = z3.BitVec(nm, self.W)
            self.assume(s != 0)
            if self.arch.code_align > 1:
                self.assume(s & self.bv(self.arch.code_align - 1) == self.arch.code_low)
        return z3.BitVec(nm, self.W)

    def code_fn(self, inst, ty):
        sym = inst.j.get("symbol")
        if inst.body is None and inst.j.get("foreign"):
            return self.code_sym(sym or inst.path.split("::")[-1], ty)
        return I(ty, self.code_addr(("fn", inst)))

    def code_sym(self, symbol, ty):
        g = self.globals_.get(self.arch.mangle + symbol) if symbol else None
        if g is None:
            raise Unsupported(f"external symbol {symbol}")
        return I(ty, self.code_addr(("asm", g[0], g[1])))

    def fn_ptr(self, v, fty, ty):
        if isinstance(v, FnItem) and v.callee is not None:
            cal = v.callee
            if cal["kind"] == "inst":
                return self.code_fn(self.prog.insts[cal["id"]], ty.core)
        if fty.core.kind == "closure":
            return self.code_fn(self.prog.insts[fty.core.j["body"]], ty.core)
        if fty.core.kind == "fndef":
            cal = fty.core.j.get("callee")
            if cal and cal["kind"] == "inst":
                return self.code_fn(self.prog.insts[cal["id"]], ty.core)
        raise Unsupported(f"function pointer to {v}")

    def code_target(self, v):
        e = simp(v.e)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            t = self.codesym.get(e.decl().name())
            if t is not None:
                return t
        elif self.arch.code_align > 1:
            for n in vars_of(e):
                if n in self.codesym and self.solver.proves(e == z3.BitVec(n, self.W)) == "yes":
                    return self.codesym[n]
        return None

    # ------------------------------------------------------------ units
    def join_template(self, tmpl, operands, unit):
        out = []
        for p in tmpl:
            if isinstance(p, str):
                out.append(p)
                continue
            o = operands[p["op"]]
            k = o["k"]
            if k == "const":
                out.append(str(self.asm_const(o)))
            elif k == "symfn":
                out.append(f"%sym{p['op']}")
            elif k == "symstatic":
                out.append(f"%sym{p['op']}")
            elif k == "label":
                raise Unsupported("asm goto label")
            else:
                out.append(f"%op{p['op']}:{p.get('mod') or ''}%")
        return "".join(out)

    def asm_const(self, o):
        for key in ("v", "value", "c"):
            v = o.get(key)
            if isinstance(v, int):
                return v
            if isinstance(v, dict):
                c = self.const(v if "ty" in v else v["c"])
                n = simp(c.e)
                if z3.is_bv_value(n):
                    return n.as_signed_long()
        raise Unsupported("asm const operand")

    def inline_unit(self, frame, t):
        key = (id(frame.body), frame.bb)
        u = self.units.get(key)
        if u is None:
            u = Unit(f"asm@{frame.name.split('::')[-1]}#{frame.inst.id if frame.inst else 0}.{frame.bb}", "inline")
            u.ops = t["operands"]
            u.options = opts(t["options"])
            if "ATT_SYNTAX" in u.options:
                raise Unsupported("AT&T syntax asm")
            u.text = self.join_template(t["template"], t["operands"], u)
            for o in u.ops:
                if isinstance(o.get("reg"), str):
                    o["reg"] = self.arch.canon(o["reg"])
            self.parse(u)
            u.noreturn = "NORETURN" in u.options or not t["targets"]
            self.units[key] = u
        return u

    # ------------------------------------------------------------ entering a block
    def exec_asm(self, frame, t):
        u = self.inline_unit(frame, t)
        seg = self.cur
        r = seg.region
        if r is None:
            raise Unsupported("asm in a constant")
        # compiled code of this segment may have used any memory below its entry
        self.havoc(r, r.lo, seg.E)
        A = self.sym("A")
        self.bind(A, r)
        self.assume(A & self.bv(self.arch.asm_mask) == 0)
        frame_min = 0
        if self.arch.lr is not None and any(o["k"] in ("out", "inout") and o["reg"] == self.arch.lr for o in t["operands"]):
            self.rec.trusted.add("asm: a function with an asm block that clobbers the link register has saved it on its stack")
            frame_min = self.arch.asm_mask + 1
        self.assume(z3.ULE(A, seg.E - frame_min))
        self.assume(z3.UGE(A, r.lo + self.bv(r.reserve)))
        regs = {g: self.sym("in_" + g, self.gbits) for g in self.gprs}
        regs["sp"] = A
        fixed, virt = {}, {}
        outs, reads = {}, []
        for n, o in enumerate(t["operands"]):
            k = o["k"]
            if k not in ("in", "out", "inout"):
                continue
            reg = o["reg"]
            cls = reg not in self.gprs and reg in ("reg", "reg_abcd", "reg_byte", "reg_nonzero")
            if k in ("in", "inout"):
                v = frame.operand(self, o["v"])
                w = self.asm_word(v, o["v"])
                if cls:
                    virt[n] = w
                elif reg in self.gprs:
                    if reg in fixed:
                        self.fail("asm/operands", f"register {reg} given twice")
                    fixed[reg] = n
                    regs[reg] = w
                else:
                    raise Unsupported(f"asm input register {reg}")
            elif cls:
                virt[n] = self.sym("undef", self.gbits)
        act = self.Act(seg, u, A, dict(regs), frame, t, self.cur_req(seg))
        act.fixed = fixed
        act.explicit = {o["reg"] for o in t["operands"] if o["k"] in ("in", "out", "inout") and o["reg"] in self.gprs}
        act.virt = virt
        act.cfi_label = None
        act.wrote = set()
        act.stackuse = False
        act.entry = dict(regs)
        self.teb_user(act)
        self.acts.append(act)
        self.regs = regs
        self.a_virt = virt
        self.a_act = act
        self.a_unit, self.a_pos, self.a_flags = u, 0, None
        self.a_entry = None
        self.rec.asm.add(u.name)
        self.asm_run()

    def cur_req(self, seg):
        for f in reversed(seg.frames):
            rq = getattr(f, "req", None)
            if rq is not None:
                return rq
        return None

    def asm_word(self, v, src):
        """register contents for an operand value"""
        w = self.word_of(v)
        if w is None:
            self.fail("asm/operands", f"{v} passed in a register")
        if isinstance(v, I) and v.e.size() < self.gbits:
            if src["k"] == "const":
                # LLVM materialises narrower integer constants zero-extended (trusted)
                self.rec.trusted.add("asm: an integer constant narrower than the register is zero-extended")
                return simp(z3.ZeroExt(self.gbits - v.e.size(), v.e))
            hi = self.sym("undefhi", self.gbits - v.e.size())
            return simp(z3.Concat(hi, v.e))
        if isinstance(v, I):
            return v.e
        return w

    # ------------------------------------------------------------ main loop
    def asm_run(self):
        self.cur_asm_seg, self.cur = self.cur, self.cur
        while True:
            self.tick()
            u = self.a_unit
            if self.a_pos >= len(u.insns):
                if u.kind == "global":
                    self.fail("asm/fallthrough", f"execution runs past the end of {u}")
                self.block_end(u)
                return
            mn, ops = u.insns[self.a_pos]
            self.a_pos += 1
            self.a_hist.append((mn, tuple(ops)))
            if self.insn(mn, ops):
                return

    def asm_leave(self):
        """control leaves the inline block that act entered"""
        act, self.a_act = self.a_act, None
        if act is None:
            return
        act.left = True
        if act.req is not None and getattr(act.req, "target", None) is not None:
            act.req.target.link = act
        self.asm_opts_left(act)
        if act.block.noreturn:
            self.acts.remove(act)
            act.seg.dead = True
            act.seg.region.zombies.append(act.seg)

    def asm_opts_left(self, act):
        o = act.block.options
        for bad, why in (("NOMEM", "other contexts access memory"), ("READONLY", "other contexts write memory"),
                         ("PURE", "the switch has side effects"), ("PRESERVES_FLAGS", "the other context changes the flags")):
            self.ob("asm/options", bad not in o, f"{act.block} declares {bad.lower()} but {why}")

    def goto_code(self, e, how):
        """transfer control to a code address; returns True when asm execution stops"""
        t = self.code_target(I(None, e))
        if t is None:
            self.fail("asm/jump-target", f"{how} at {self.a_unit} goes to {simp(e)}, which is not the address of any code that expects control")
        if t[0] == "asm":
            if t[1] is not self.a_unit:
                self.asm_leave()
                self.a_flags = None
                if t[1].kind == "inline":
                    self.a_entry = (t[1], t[2])
                    self.a_virt = {}
            self.a_unit, self.a_pos = t[1], t[2]
            return False
        self.asm_leave()
        self.enter_fn(t[1])
        return True

    def set_reg(self, name, bits, v):
        v = simp(v)
        if bits == self.gbits:
            self.regs[name] = v
        elif bits == 32:
            self.regs[name] = simp(z3.ZeroExt(32, v))
        else:
            old = self.regs[name]
            self.regs[name] = simp(z3.Concat(z3.Extract(self.gbits - 1, bits, old), v))
        if self.a_act is not None:
            self.a_act.wrote.add(name)
            if name not in self.a_act.explicit and name not in self.arch.noalloc:
                # the compiler may have put a class operand into this register
                for k in list(self.a_virt):
                    self.a_virt[k] = self.sym("clobbered_operand", self.gbits)

    def get_reg(self, name, bits):
        v = self.regs[name]
        return v if bits == self.gbits else simp(z3.Extract(bits - 1, 0, v))

    # ------------------------------------------------------------ operands
    def parse_op(self, s):
        s = s.strip()
        low = s.lower()
        m = re.match(r"^%op(\d+):(\w*)%$", s)
        if m:
            return ("virt", int(m.group(1)), m.group(2))
        rn = self.arch.regname(low)
        if rn is not None:
            return ("reg",) + rn
        size = None
        m = re.match(r"^(byte|word|dword|qword)\s+ptr\s+(.*)$", low)
        if m:
            size = {"byte": 8, "word": 16, "dword": 32, "qword": 64}[m.group(1)]
            s = s[len(s) - len(m.group(2)):]
        s = s.strip()
        m = re.match(r"^(fs|gs):\s*\[(.*)\]$", s.strip(), re.I)
        if m:
            return ("teb", self.teb_field(m.group(1).lower(), m.group(2)), size)
        m = re.match(r"^(.*)\[(.*)\]$", s)
        if m:
            pre = m.group(1).strip()
            body = m.group(2)
            if pre:
                body = pre + " + " + body
            return ("mem", body, size)
        if low.startswith("offset "):
            return ("imm", s[7:].strip())
        return ("imm", s)

    def expr(self, s):
        """value of an address / immediate expression"""
        s = s.strip()
        toks = re.findall(r"%op\d+:\w*%|%sym\d+|0x[0-9a-fA-F]+|\d+[bf]\b|\d+|[A-Za-z_.$][\w.$@]*|[-+*()]", s)
        if "".join(toks) != re.sub(r"\s+", "", s):
            raise Unsupported(f"asm expression {s!r}")
        acc = self.bv(0)
        sign = 1
        i = 0
        while i < len(toks):
            t = toks[i]
            if t == "+":
                i += 1
                continue
            if t == "-":
                sign = -sign
                i += 1
                continue
            if t in "()*":
                raise Unsupported(f"asm expression {s!r}")
            v = self.term_(t)
            if v is None:      # rip-relative
                i += 1
                sign = 1
                continue
            while i + 2 < len(toks) and toks[i + 1] == "*":
                v = v * self.term_(toks[i + 2])
                i += 2
            acc = acc + v if sign > 0 else acc - v
            sign = 1
            i += 1
        return simp(acc)

    def term_(self, t):
        low = t.lower()
        if low in ("rip", "eip"):
            return None
        rn = self.arch.regname(low)
        if rn is not None:
            n, b = rn
            v = self.get_reg(n, b)
            if v.size() != self.W:
                raise Unsupported(f"narrow register {t} in an address")
            return v
        if t.startswith("%op"):
            m = re.match(r"^%op(\d+):", t)
            return self.virt_get(int(m.group(1)))
        if t.startswith("%sym"):
            o = self.a_unit.ops[int(t[4:])]
            return self.sym_operand(o)
        if re.match(r"^0x", low):
            return self.bv(int(low, 16))
        if re.match(r"^\d+$", t):
            return self.bv(int(t))
        m = re.match(r"^(\d+)([bf])$", low)
        if m:
            u = self.a_unit
            ps = u.numlabels.get(m.group(1), [])
            here = self.a_pos - 1
            if m.group(2) == "f":
                c = [p for p in ps if p > here]
                p = min(c) if c else None
            else:
                c = [p for p in ps if p <= here]
                p = max(c) if c else None
            if p is None:
                raise Unsupported(f"label {t}")
            return self.code_addr(("asm", u, p))
        u = self.a_unit
        if t in u.equ:
            ex, pos = u.equ[t]
            save = self.a_pos
            self.a_pos = pos + 1 if pos < len(u.insns) else pos
            # labels in .equ are resolved at the directive
            self.a_pos = pos + 1
            v = self.expr_at(ex, u, pos)
            self.a_pos = save
            return v
        if t in u.named:
            return self.code_addr(("asm", u, u.named[t]))
        if t in self.globals_:
            g = self.globals_[t]
            return self.code_addr(("asm", g[0], g[1]))
        raise Unsupported(f"asm symbol {t}")

    def expr_at(self, ex, u, pos):
        """expression with numeric labels resolved from directive position pos"""
        def lab(m):
            n, d = m.group(1), m.group(2)
            ps = u.numlabels.get(n, [])
            c = [p for p in ps if (p >= pos and self.label_after(u, n, p, pos))] if d == "f" else [p for p in ps if p <= pos and not self.label_after(u, n, p, pos)]
            if not c:
                raise Unsupported(f"label {m.group(0)}")
            p = min(c) if d == "f" else max(c)
            return f"@{p}@"
        parts = re.split(r"([-+])", re.sub(r"\s+", "", ex))
        acc, sign = self.bv(0), 1
        for p in parts:
            if p == "":
                continue
            if p in "+-":
                sign = 1 if p == "+" else -sign
                continue
            m = re.match(r"^(\d+)([bf])$", p)
            if m:
                q = int(lab(m).strip("@"))
                v = self.code_addr(("asm", u, q))
            else:
                v = self.term_(p)
            acc = acc + v if sign > 0 else acc - v
            sign = 1
        return simp(acc)

    def label_after(self, u, n, p, pos):
        # a label at the directive's own position counts as "before" it
        return p > pos

    def sym_operand(self, o):
        if o["k"] == "symfn":
            c = o.get("c") or o.get("v") or o.get("const")
            fi = self.const(c if "ty" in c else c["c"])
            return self.fn_ptr(fi, fi.ty, fi.ty).e
        if o["k"] == "symstatic":
            a = o.get("symbol") or o.get("path", "").split("::")[-1]
            return self.code_sym(a, None).e
        raise Unsupported("asm sym operand")

    def virt_get(self, n):
        if self.a_act is None or n not in self.a_virt:
            # operands are only available until control leaves the block
            return self.sym("lost_operand", self.gbits)
        return self.a_virt[n]

    def rd(self, op, bits=None):
        k = op[0]
        if k == "reg":
            return self.get_reg(op[1], op[2])
        if k == "virt":
            v = self.virt_get(op[1])
            return simp(z3.Extract(31, 0, v)) if op[2] == "e" and self.gbits == 64 else v
        if k == "imm":
            v = self.expr(op[1])
            if bits and bits < v.size():
                v = simp(z3.Extract(bits - 1, 0, v))
            return v
        if k == "mem":
            if op[2] is not None and op[2] != self.gbits or (op[2] is None and bits is not None and bits != self.gbits):
                raise Unsupported("narrow memory access in asm")
            return self.mem_read(self.expr(op[1])).e
        if k == "teb":
            if (op[2] or bits or self.gbits) != self.gbits:
                raise Unsupported("narrow access to the thread environment block")
            self.asm_mem(False)
            return self.teb[op[1]]
        raise Unsupported(f"operand {op}")

    def wr(self, op, v):
        k = op[0]
        if k == "reg":
            if v.size() != op[2]:
                raise Unsupported("operand size mismatch")
            self.set_reg(op[1], op[2], v)
        elif k == "virt":
            if self.a_act is None:
                raise Unsupported("class output operand after leaving the block")
            self.a_virt[op[1]] = v
            # the register may be any not explicitly used one
            o = self.a_unit.ops[op[1]]
            if o["k"] == "in":
                self.ob("asm/operands", False, "an input-only operand register is modified")
        elif k == "mem":
            self.mem_write(self.expr(op[1]), v)
        elif k == "teb":
            self.asm_mem(True)
            self.ob("teb/fields", op[1] != "self", f"{self.a_unit} overwrites the address of the thread environment block")
            self.teb[op[1]] = v
        else:
            raise Unsupported("write to immediate")

    def opbits(self, op):
        if op[0] == "reg":
            return op[2]
        if op[0] == "virt":
            return 32 if (op[2] == "e" or not self.x64) else 64
        if op[0] in ("mem", "teb"):
            return op[2]
        return None

    # ------------------------------------------------------------ memory
    def mem_read(self, e):
        self.asm_mem(False)
        lv = self.resolve(e, self.usize)
        v = self.read(lv, self.usize)
        if isinstance(v, Garb) or isinstance(v, Uninit):
            return I(self.usize, self.sym("garbage"))
        return v

    def mem_write(self, e, v):
        self.asm_mem(True)
        lv = self.resolve(e, self.usize)
        val = I(self.usize, simp(v))
        t = lv
        if isinstance(lv, RLV):
            self.rwrite_word(lv.region, lv.addr, val)
        else:
            self.write(lv, self.usize, val)

    def asm_mem(self, wr):
        act = self.a_act
        if act is not None:
            o = act.block.options
            self.ob("asm/options", "NOMEM" not in o, f"{act.block} declares nomem but accesses memory")
            if wr:
                self.ob("asm/options", "READONLY" not in o and "PURE" not in o, f"{act.block} declares readonly but writes memory")

    def push_(self, v):
        act = self.a_act
        if act is not None:
            self.ob("asm/options", "NOSTACK" not in act.block.options, f"{act.block} declares nostack but pushes")
        sp = simp(self.regs["sp"] - self.pb)
        self.regs["sp"] = sp
        self.mem_write(sp, v)

    def pop_(self):
        v = self.mem_read(self.regs["sp"]).e
        self.regs["sp"] = simp(self.regs["sp"] + self.pb)
        return v

    # ------------------------------------------------------------ instructions
    def insn(self, mn, ops):
        if not self.x86:
            return self.arch.insn(self, mn, ops)
        P = [self.parse_op(o) for o in ops]
        u = self.a_unit
        if mn in FLAG_OPS and self.a_act is not None:
            self.ob("asm/options", "PRESERVES_FLAGS" not in self.a_act.block.options, f"{u} declares preserves_flags but executes {mn}")
        if mn == "push":
            self.push_(self.rd(P[0]))
        elif mn == "pop":
            v = self.pop_()
            self.wr(P[0], v)
        elif mn in ("mov", "movabs"):
            b = self.opbits(P[0]) or self.opbits(P[1]) or self.gbits
            self.wr(P[0], self.rd(P[1], b))
        elif mn == "lea":
            v = self.expr(P[1][1])
            b = self.opbits(P[0])
            self.wr(P[0], v if b == self.gbits else simp(z3.Extract(b - 1, 0, v)))
        elif mn in ("add", "sub", "and", "or", "xor", "cmp", "test"):
            b = self.opbits(P[0]) or self.opbits(P[1]) or self.gbits
            x, y = self.rd(P[0], b), self.rd(P[1], b)
            if mn == "xor" and P[0] == P[1]:
                r = z3.BitVecVal(0, b)
            else:
                r = {"add": x + y, "sub": x - y, "cmp": x - y, "and": x & y, "test": x & y, "or": x | y, "xor": x ^ y}[mn]
            self.a_flags = (mn, x, y, simp(r))
            if mn not in ("cmp", "test"):
                self.wr(P[0], simp(r))
        elif mn in ("inc", "dec", "neg", "not"):
            x = self.rd(P[0])
            r = {"inc": x + 1, "dec": x - 1, "neg": -x, "not": ~x}[mn]
            self.wr(P[0], simp(r))
            if mn != "not":
                self.a_flags = None
        elif mn in ("rol", "ror", "shl", "shr", "sar", "sal"):
            x = self.rd(P[0])
            if P[1][0] != "imm":
                raise Unsupported(f"{mn} by register")
            n = simp(self.expr(P[1][1])).as_long() & (63 if x.size() == 64 else 31)
            if mn == "rol":
                r = z3.RotateLeft(x, n)
            elif mn == "ror":
                r = z3.RotateRight(x, n)
            elif mn in ("shl", "sal"):
                r = x << n
            elif mn == "shr":
                r = z3.LShR(x, z3.BitVecVal(n, x.size()))
            else:
                r = x >> n
            self.wr(P[0], simp(r))
            self.a_flags = None
        elif mn == "xchg":
            x, y = self.rd(P[0]), self.rd(P[1])
            if P[0] == P[1]:
                if P[0][0] == "reg" and P[0][1] == "bx":
                    self.valgrind_request()
            else:
                self.wr(P[0], y)
                self.wr(P[1], x)
        elif mn == "call":
            tgt = self.rd(P[0])
            self.push_(self.code_addr(("asm", u, self.a_pos)))
            return self.goto_code(tgt, "call")
        elif mn == "jmp":
            return self.goto_code(self.rd(P[0]), "jmp")
        elif mn in ("ret", "retq", "retl"):
            v = self.pop_()
            if P:
                self.regs["sp"] = simp(self.regs["sp"] + self.rd(P[0]))
            return self.goto_code(v, "ret")
        elif mn in ("je", "jz", "jne", "jnz", "jb", "jae", "ja", "jbe", "jc", "jnc"):
            f = self.a_flags
            if f is None:
                raise Unsupported("conditional jump on unknown flags")
            op, x, y, r = f
            if mn in ("je", "jz"):
                c = r == 0
            elif mn in ("jne", "jnz"):
                c = r != 0
            elif op in ("cmp", "sub"):
                c = {"jb": z3.ULT(x, y), "jc": z3.ULT(x, y), "jae": z3.UGE(x, y), "jnc": z3.UGE(x, y), "ja": z3.UGT(x, y), "jbe": z3.ULE(x, y)}[mn]
            else:
                raise Unsupported(f"{mn} after {op}")
            if self.decide(c, f"asm {mn}"):
                return self.goto_code(self.rd(P[0]), mn)
        elif mn == "leave":
            self.regs["sp"] = self.regs["bp"]
            self.wr(("reg", "bp", self.gbits), self.pop_())
        elif mn in ("nop", "endbr64", "endbr32", "pause", "cld", "lfence", "mfence"):
            pass
        elif mn in ("int3", "ud2", "hlt"):
            self.fail("asm/trap-instruction", f"{mn} is executed in {u}")
        else:
            raise Unsupported(f"instruction {mn}")
        return False

    def valgrind_request(self):
        h = [(m, o) for m, o in self.a_hist[-5:-1]]
        want = [3, 13, 61, 51] if self.x64 else [3, 13, 29, 19]
        reg = "rdi" if self.x64 else "edi"
        if [(m, o) for m, o in h] != [("rol", (reg, str(n))) for n in want]:
            return
        self.a_hist.append(("magic", ()))
        act = self.a_act
        if act is not None:
            o = act.block.options
            self.ob("asm/options", "NOMEM" not in o and "PURE" not in o,
                    "the Valgrind request reads its argument block and has side effects, but the asm block declares nomem/pure")
        cb = self.hooks.get("valgrind")
        if cb is None:
            return
        res = cb(self, self.regs["ax"], self.regs["dx"])
        if res is not None:
            self.regs["dx"] = res

    # ------------------------------------------------------------ block end
    def block_end(self, u):
        sp = self.regs["sp"]
        cands = [a for a in self.acts if a.block is u]
        found = None
        for a in cands:
            if self.solver.proves(sp == a.A) == "yes":
                found = a
                break
        if u.noreturn:
            self.fail("asm/noreturn", f"execution falls off the end of {u}, which is declared noreturn")
        if found is None:
            if self.a_act is not None:
                self.ob("switch/stack-pointer", sp == self.a_act.A, f"stack pointer at the end of {u}")
                raise PathEnd("sp")
            self.fail("switch/stack-pointer", f"{u} ends with stack pointer {simp(sp)}, which is not the stack pointer of any context parked there (those have {[str(a.A) for a in cands]})")
        self.ob("switch/stack-pointer", True)
        act = found
        if act.left:
            self.ob("asm/resume-point", self.a_entry is not None and self.a_entry[0] is u, f"{u}")
            if act.cfi_label is not None:
                self.ob("unwind/return-address", self.a_entry == act.cfi_label,
                        f"the unwind information named {act.cfi_label} but control returned to {self.a_entry}")
        self.acts.remove(act)
        self.a_act = None
        t = act.term
        outs = {}
        for n, o in enumerate(t["operands"]):
            if o["k"] in ("out", "inout"):
                outs[o["reg"]] = o
        # registers the compiler relies on
        fixedregs = set(self.gprs)
        for g in self.gprs:
            if g in outs or g == "sp":
                continue
            v, e = self.regs[g], act.entry[g]
            nm = "switch/frame-pointer" if g == self.arch.fp else "switch/register"
            self.ob(nm, v == e, f"{g} after {u} must be what it was before (it is not declared clobbered)")
        if act.left:
            have = set(outs)
            for alias in self.arch.vec:
                self.ob("switch/vector-registers", bool(set(alias) & have), f"{alias[0]} may be changed by the other context but {u} does not declare it clobbered")
        seg = act.seg
        self.cur = seg
        frame = act.frame
        regs, virt = self.regs, self.a_virt
        for n, o in enumerate(t["operands"]):
            if o["k"] in ("out", "inout") and o.get("place") is not None:
                if o["reg"] in self.gprs:
                    e = regs[o["reg"]]
                else:
                    e = virt.get(n)
                    if e is None or act.left:
                        raise Unsupported("class output operand across a switch")
                ty, lv = frame.place(self, o["place"])
                c = ty.core
                if not ty.is_scalar:
                    v = self.from_word(I(self.usize, e), c)
                else:
                    w = c.size * 8
                    v = I(c, e if e.size() == w else simp(z3.Extract(w - 1, 0, e)))
                self.write(lv, ty, v)
        self.teb_back(act, f"after {u}")
        if self.hooks.get("resumed") and act.left:
            self.hooks["resumed"](self, act)
        frame.goto(t["targets"][0])

    # ------------------------------------------------------------ compiled functions entered from asm
    def enter_fn(self, inst, extra=None):
        from .engine import Seg
        self.rec.fns.add(inst.path)
        if inst.body is None:
            raise Unsupported(f"asm enters {inst.path}, which has no body")
        sp = self.regs["sp"]
        r = self.region_of(sp)
        if r is None:
            self.fail("asm/stack", f"{inst.name} is entered with stack pointer {simp(sp)}, which is not inside any stack")
        if not r.live:
            self.fail("mem/stack-released", f"{inst.name} is entered on a stack that has been released")
        self.ob("mem/stack-bounds", z3.And(z3.UGE(sp, r.lo), z3.ULE(sp, r.hi - self.arch.slop)), f"stack pointer {simp(sp)} at entry of {inst.name}")
        self.ob("abi/stack-alignment", (sp & self.bv(self.arch.entry_mask)) == self.bv(self.arch.entry_want), f"stack pointer {simp(sp)} at entry of {inst.name}")
        self.ob("mem/stack-room", z3.UGE(sp - r.lo, self.bv(r.room)), f"room below {simp(sp)} for {inst.name} on {r}")
        for s, A in self.frames_on(r):
            self.ob("mem/live-frame", z3.ULE(sp, A), f"{inst.name} runs at {simp(sp)}, over the live frames of {s} that reach down to {A}")
        abi = inst.abi
        body = inst.body
        tys = [self.prog.ty(body["locals"][i]) for i in range(1, body["argc"] + 1)]
        regs = dict(self.regs)
        args, popbytes, stackargs = [], 0, 0
        a = abi.lower()
        if not self.x86:
            if not (a == "c" or a.startswith(("c ", "c{"))):
                self.fail("abi/mismatch", f"asm enters {inst.name}, which has the {abi} calling convention")
            order = list(self.arch.args)
        elif self.x64:
            if not (a.startswith("sysv64") or a.startswith("c ") or a == "c" or a.startswith("c{") or a.startswith("c {")):
                self.fail("abi/mismatch", f"asm enters {inst.name}, which has the {abi} calling convention")
            order = ["di", "si", "dx", "cx", "r8", "r9"]
        elif a.startswith("fastcall"):
            order = ["cx", "dx"]
        elif a.startswith("c"):
            order = []
        else:
            self.fail("abi/mismatch", f"asm enters {inst.name}, which has the {abi} calling convention")
        for ty in tys:
            if ty.zst:
                args.append(self.unit_of(ty))
                continue
            if ty.size is None or ty.size > self.pb or not ty.is_scalar:
                raise Unsupported(f"argument type {ty.str} of {inst.name}")
            if order:
                w = regs[order.pop(0)]
            else:
                w = self.mem_read(simp(sp + self.arch.slop + stackargs)).e
                stackargs += self.pb
            args.append(I(ty.core, w if w.size() == ty.core.size * 8 else simp(z3.Extract(ty.core.size * 8 - 1, 0, w))))
        if a.startswith("fastcall"):
            popbytes = stackargs
        seg = Seg("asmfn", r, sp, regs, {"inst": inst, "pop": popbytes})
        seg.args = args
        self.cur = seg
        self.teb_enter(seg)
        # the function owns the stack below its entry and its argument area
        self.havoc(r, r.lo, sp)
        if stackargs:
            self.havoc(r, simp(sp + self.arch.slop), simp(sp + self.arch.slop + stackargs))
        if self.hooks.get("entered"):
            self.hooks["entered"](self, seg)
        self.enter(inst, args)
        seg.root = seg.frames[-1]

    def seg_return(self, v):
        seg = self.cur
        if seg.kind == "env":
            self.done = True
            self.result = v
            return
        if seg.kind != "asmfn":
            raise Unsupported(f"return from {seg.kind} segment")
        inst = seg.sig["inst"]
        r, E = seg.region, seg.E
        self.discard_seg(seg)
        self.havoc(r, r.lo, E)
        self.cur = seg
        self.teb_user()
        target = self.mem_read(E).e if self.arch.lr is None else seg.entry_regs[self.arch.lr]
        regs = {g: self.sym("ret_" + g, self.gbits) for g in self.gprs}
        for g in self.arch.saved:
            regs[g] = seg.entry_regs[g]
        regs["sp"] = simp(E + self.arch.slop + seg.sig["pop"])
        if isinstance(v, I) and v.e.size() == self.gbits:
            regs[self.arch.ret] = v.e
        self.regs = regs
        self.a_act = None
        self.a_virt = {}
        self.a_unit, self.a_pos = _NOUNIT, 0
        self.a_flags = None
        if self.goto_code(target, f"return from {inst.name}"):
            return
        self.asm_run()

    def seg_unwind(self, payload):
        seg = self.cur
        if seg.kind == "env":
            self.done = True
            self.result = None
            self.panicked = payload
            return
        # the unwinder steps from the root of this segment into the assembly that entered it
        name = seg.sig["inst"].name
        E, r = seg.E, seg.region
        ret = self.seg_ret(seg)
        t = self.code_target(I(None, ret)) if ret is not None else None
        self.ob("unwind/return-address", t is not None and t[0] == "asm", f"a panic leaves {name}, whose return address is {ret}")
        regs = self.seg_regs(seg)
        u, pos = t[1], t[2]
        if u.kind == "inline":
            cfa, ip, got = regs["sp"], (u, pos), regs
        else:
            f = self.fde(u, pos - 1)
            self.ob("unwind/fde", f is not None, f"return address {u}+{pos} minus one is covered by no unwind information")
            row = self.cfi_row(u, f, pos - 1)
            if row["signal"]:
                self.ob("unwind/fde", self.fde(u, pos) == f, f"return address {u}+{pos} is outside its function (needed because of .cfi_signal_frame)")
                row = self.cfi_row(u, f, pos)
            if self.arch.name == "arm":
                cfa, ipv, got = self.eh_step(u, pos, regs)
                rule = got.get
            else:
                cfa, rule = self.cfi_rules(row, regs)
                self.ob("unwind/cfa", cfa is not None, f"canonical frame address at {u}+{pos} cannot be computed")
                ipv = rule("ip")
            ti = self.code_target(I(None, ipv)) if ipv is not None else None
            self.ob("unwind/return-address", ti is not None and ti[0] == "asm" and ti[1].kind == "inline",
                    f"the return address restored at {u}+{pos} is {ipv}")
            ip = (ti[1], ti[2])
            self.ob("unwind/return-address", 0 < ip[1] and (not row["signal"] or ip[1] < len(ip[0].insns)), f"{ip} is outside the asm block")
            got = {g: rule(g) for g in self.gprs}
        P = None
        for a in self.acts:
            if a.block is ip[0] and a.left and self.solver.proves(cfa == a.A) == "yes":
                P = a
        if P is None:
            self.fail("unwind/cfa", f"a panic that leaves {name} reaches {ip} with stack pointer {cfa}, which is not the stack pointer of any context parked there "
                      f"(those have {[str(a.A) for a in self.acts if a.block is ip[0]]})")
        self.ob("unwind/cfa", True)
        self.ob("unwind/through-asm", "MAY_UNWIND" in P.block.options, f"a panic leaves {name} and unwinds through {P.block}, which is not declared may_unwind")
        outs = {o["reg"] for o in P.term["operands"] if o["k"] in ("out", "inout")}
        for g in self.gprs:
            if g in outs or g == "sp":
                continue
            # everything the landing pad may rely on
            self.ob("unwind/registers", got[g] is not None, f"{g} of {P.block} cannot be restored")
            self.ob("unwind/registers", got[g] == P.entry[g], f"{g} of {P.block}")
        self.ob("unwind/args-size", not self.x86 or self.arch.teb is not None or any(d == ".cfi_escape" and i <= ip[1] and [self.cfi_int(x) for x in a] == [0x2E, 0] for i, d, a in P.block.cfi),
                f"{P.block} does not reset the argument size that an earlier call of its function may have set")
        self.discard_seg(seg)
        self.havoc(r, r.lo, simp(E + self.arch.slop))
        self.acts.remove(P)
        self.a_act, self.a_unit, self.a_pos = None, _NOUNIT, 0
        self.a_virt = {}
        self.cur = P.seg
        self.teb_back(P, f"after unwinding through {P.block}")
        self.cover("unwound-through-asm")
        if self.hooks.get("resumed"):
            self.hooks["resumed"](self, P)
        P.frame.uw = P.term["unwind"]
        self.unwind(payload)

    # ------------------------------------------------------------ unwinding information
    def seg_ret(self, seg):
        """return address of the root function of seg"""
        return self.peek(seg.E) if self.arch.lr is None else seg.entry_regs[self.arch.lr]

    def seg_regs(self, seg):
        """what unwinding the compiled frames of seg restores"""
        regs = {g: (seg.entry_regs[g] if g in self.arch.saved else None) for g in self.gprs}
        regs["sp"] = simp(seg.E + self.arch.slop)
        if self.arch.lr is not None:
            regs[self.arch.lr] = seg.entry_regs[self.arch.lr]
        return regs

    def peek(self, e):
        """memory word as an unwinder would read it"""
        e = simp(e)
        r = self.region_of(e)
        if r is None or not r.live:
            return None
        v = self.rlookup(r, e, self.bv(self.pb), self.usize)
        v = self.convert(v, self.usize)
        return v.e if isinstance(v, I) else None

    def fde(self, u, pos, signal_ok=True):
        """(start, end) of the FDE that contains position pos"""
        start = None
        for i, d, a in u.cfi:
            if d == ".cfi_startproc":
                start = i
            elif d == ".cfi_endproc" and start is not None:
                if start <= pos < i:
                    return start, i
                start = None
        return None

    def cfi_row(self, u, fde, pos):
        """CFI state at instruction position pos"""
        def first():
            return {"cfa": ("reg", "sp", self.arch.slop), "rules": {"ip": ("off", -self.pb)} if self.arch.lr is None else {}, "signal": False}
        row = first()
        stack = []
        init = None
        for i, d, a in u.cfi:
            if i < fde[0] or (i == fde[0] and d == ".cfi_endproc") or i > pos:
                continue
            if i >= fde[1]:
                continue
            n = lambda k: self.cfi_int(a[k])
            if d == ".cfi_startproc":
                row = first()
            elif d == ".cfi_signal_frame":
                row["signal"] = True
            elif d == ".cfi_def_cfa":
                row["cfa"] = ("reg", self.dwreg(a[0]), n(1))
            elif d == ".cfi_def_cfa_register":
                row["cfa"] = ("reg", self.dwreg(a[0]), row["cfa"][2])
            elif d == ".cfi_def_cfa_offset":
                row["cfa"] = ("reg", row["cfa"][1], n(0))
            elif d == ".cfi_adjust_cfa_offset":
                row["cfa"] = ("reg", row["cfa"][1], row["cfa"][2] + n(0))
            elif d == ".cfi_offset":
                row["rules"][self.dwreg(a[0])] = ("off", n(1))
            elif d == ".cfi_rel_offset":
                row["rules"][self.dwreg(a[0])] = ("off", n(1) - row["cfa"][2])
            elif d == ".cfi_register":
                row["rules"][self.dwreg(a[0])] = ("reg", self.dwreg(a[1]))
            elif d in (".cfi_same_value", ".cfi_restore"):
                row["rules"].pop(self.dwreg(a[0]), None)
                if self.dwreg(a[0]) == "ip" and self.arch.lr is None:
                    row["rules"]["ip"] = ("off", -self.pb)
            elif d == ".cfi_undefined":
                row["rules"][self.dwreg(a[0])] = ("undef",)
            elif d == ".cfi_remember_state":
                stack.append({"cfa": row["cfa"], "rules": dict(row["rules"])})
            elif d == ".cfi_restore_state":
                row.update(stack.pop())
            elif d == ".cfi_escape":
                self.cfi_escape(row, [self.cfi_int(x) for x in a])
            else:
                raise Unsupported(f"directive {d}")
        # cfi_signal_frame is a property of the FDE
        row["signal"] = any(d == ".cfi_signal_frame" and fde[0] <= i < fde[1] for i, d, a in u.cfi)
        return row

    def dwreg(self, s):
        s = s.strip().lower().lstrip("%")
        if s.isdigit():
            return self.arch.dw[int(s)]
        if s in ("rip", "eip") and self.x86:
            return "ip"
        r = self.arch.regname(s)
        if r is None:
            raise Unsupported(f"register {s} in unwind information")
        return r[0]

    def cfi_int(self, s):
        v = number(s)
        if v is None:
            raise Unsupported(f"number {s} in unwind information")
        return v

    def cfi_escape(self, row, b):
        i = 0

        def uleb(i):
            v = sh = 0
            while True:
                x = b[i]
                i += 1
                v |= (x & 0x7F) << sh
                sh += 7
                if not x & 0x80:
                    return v, i
        dw = self.arch.dw
        while i < len(b):
            op = b[i]
            i += 1
            if op == 0x0F:
                n, i = uleb(i)
                row["cfa"] = ("expr", b[i:i + n])
                i += n
            elif op in (0x10, 0x16):
                r, i = uleb(i)
                n, i = uleb(i)
                row["rules"][dw[r]] = ("expr" if op == 0x10 else "valexpr", b[i:i + n])
                i += n
            elif op == 0x2E:
                n, i = uleb(i)
            elif op == 0x0C:
                r, i = uleb(i)
                o, i = uleb(i)
                row["cfa"] = ("reg", dw[r], o)
            elif op == 0x0D:
                r, i = uleb(i)
                row["cfa"] = ("reg", dw[r], row["cfa"][2])
            elif op == 0x0E:
                o, i = uleb(i)
                row["cfa"] = ("reg", row["cfa"][1], o)
            elif op & 0xC0 == 0x80:
                o, i = uleb(i)
                row["rules"][dw[op & 0x3F]] = ("off", -self.pb * o)
            elif op == 0:
                pass
            else:
                raise Unsupported(f"DW_CFA {op:#x}")

    def dwexpr(self, b, regs, init=None):
        st = [init] if init is not None else []
        i = 0
        dw = self.arch.dw

        def leb(i, signed):
            v = sh = 0
            while True:
                x = b[i]
                i += 1
                v |= (x & 0x7F) << sh
                sh += 7
                if not x & 0x80:
                    if signed and x & 0x40:
                        v -= 1 << sh
                    return v, i
        try:
            while i < len(b):
                op = b[i]
                i += 1
                if 0x70 <= op <= 0x8F:
                    o, i = leb(i, True)
                    rv = regs.get(dw.get(op - 0x70))
                    if rv is None:
                        return None
                    st.append(rv + self.bv(o))
                elif op == 0x06:
                    x = self.peek(st.pop())
                    if x is None:
                        return None
                    st.append(x)
                elif op == 0x23:
                    o, i = leb(i, False)
                    st.append(st.pop() + self.bv(o))
                elif op == 0x10:
                    o, i = leb(i, False)
                    st.append(self.bv(o))
                elif op == 0x11:
                    o, i = leb(i, True)
                    st.append(self.bv(o))
                elif op in (0x08, 0x09):
                    o = b[i]
                    i += 1
                    st.append(self.bv(o - 256 if op == 9 and o > 127 else o))
                elif 0x30 <= op <= 0x4F:
                    st.append(self.bv(op - 0x30))
                elif op == 0x22:
                    y, x = st.pop(), st.pop()
                    st.append(x + y)
                elif op == 0x1C:
                    y, x = st.pop(), st.pop()
                    st.append(x - y)
                elif op == 0x1A:
                    y, x = st.pop(), st.pop()
                    st.append(x & y)
                elif op == 0x12:
                    st.append(st[-1])
                elif op == 0x13:
                    st.pop()
                elif op == 0x16:
                    st[-1], st[-2] = st[-2], st[-1]
                else:
                    raise Unsupported(f"DW_OP {op:#x}")
        except IndexError:
            return None
        return simp(st[-1]) if st else None

    def check_unwind(self, seg, parent):
        """the unwind information of the root of seg leads to parent (an Act)"""
        ret = self.seg_ret(seg)
        t = self.code_target(I(None, ret)) if ret is not None else None
        self.ob("unwind/return-address", t is not None and t[0] == "asm", f"return address of {seg.sig['inst'].name} is {ret}")
        u, pos = t[1], t[2]
        if u.kind == "inline":
            raise Unsupported("coroutine root called directly from an inline asm block")
        regs = self.seg_regs(seg)
        if self.arch.teb is not None:
            if self.arch.unwinds:
                self.unwind_seh(u, pos, regs, parent)
            return None if self.arch.unwinds else self.check_fp_chain(seg, regs, parent)
        f1 = self.fde(u, pos - 1)
        self.ob("unwind/fde", f1 is not None, f"return address {u}+{pos} minus one is covered by no unwind information")
        row = self.cfi_row(u, f1, pos - 1)
        rows = [(row, pos - 1)]
        if row["signal"]:
            f2 = self.fde(u, pos)
            self.ob("unwind/fde", f2 == f1, f"return address {u}+{pos} is outside its function (needed because of .cfi_signal_frame)")
            rows.append((self.cfi_row(u, f1, pos), pos))
            rows = rows[1:] + rows[:1]
        for row, p in rows:
            self.unwind_row(u, p, row, regs, parent)
        if self.arch.name == "arm":
            self.unwind_ehabi(u, pos, regs, parent)
        self.check_fp_chain(seg, regs, parent)

    def check_fp_chain(self, seg, regs, parent):
        bp = regs[self.arch.fp]
        ok = False
        P = parent
        po, ro = (self.pb * x for x in self.arch.fp_rec)
        for hop in range(4):
            nb, nr = self.peek(bp + po), self.peek(bp + ro)
            if nb is None:
                break
            tt = self.code_target(I(None, nr)) if nr is not None else None
            if tt is not None and tt[0] == "asm" and tt[1] is P.block and self.solver.proves(nb == P.entry[self.arch.fp]) == "yes":
                ok = True
                break
            if self.arch.teb is not None and tt is None:
                break  # the chain is all that an unwinder has here: a record without a return address ends it
            bp = nb
        self.ob("unwind/frame-pointer-chain", ok, f"the frame pointer chain from {seg.sig['inst'].name} does not reach the frame record of the parent")

    def eh_step(self, u, pos, regs):
        """the ARM exception handling tables, which is what unwinds on ARM"""
        start = ops = None
        for i, d, a in u.eh:
            if d == ".fnstart":
                start, cur = i, []
            elif d == ".fnend":
                if start is not None and start < pos < i:
                    ops = cur
                start = None
            elif start is not None:
                cur.append((d, a))
        self.ob("unwind/fde", ops is not None, f"return address {u}+{pos} is covered by no exception handling table entry")
        r = dict(regs)
        vsp, pc = r["sp"], None
        for d, a in reversed(ops):
            if d == ".movsp":
                vsp = r[self.arch.canon(a[0])]
                if len(a) > 1:
                    raise Unsupported(".movsp with an offset")
            elif d == ".setfp":
                vsp = r[self.arch.canon(a[0])] - self.cfi_int(a[2].lstrip("#")) if len(a) > 2 else r[self.arch.canon(a[0])]
                if self.arch.canon(a[1]) != "sp":
                    raise Unsupported(".setfp from another register")
            elif d == ".pad":
                vsp = vsp + self.cfi_int(a[0].lstrip("#"))
            elif d == ".save":
                nsp = None
                for k, g in enumerate(self.arch.reglist(a[0])):
                    x = self.peek(simp(vsp + 4 * k))
                    if g == "sp":
                        nsp = x
                    elif g == "r15":
                        pc = x
                    else:
                        r[g] = x
                    n = k + 1
                vsp = nsp if nsp is not None else simp(vsp + 4 * n)
            else:
                raise Unsupported(f"directive {d}")
            self.ob("unwind/cfa", vsp is not None, f"{d} at {u} uses a stack pointer that cannot be restored")
        if pc is None:
            pc = r[self.arch.lr]
        r["sp"] = vsp
        return vsp, pc, r

    # ------------------------------------------------------------ Windows
    def seh_step(self, u, pos, regs):
        """what RtlVirtualUnwind restores: the prologue undone, then the return address popped"""
        start = ops = None
        for i, d, a in u.seh:
            if d == ".seh_proc":
                start, cur, end, done = i, [], None, False
            elif d == ".seh_endproc":
                if start is not None and start <= pos < i:
                    ops, at = cur, end
                start = None
            elif d == ".seh_endprologue":
                done, end = True, i
            elif start is not None and not done:
                cur.append((d, a))
        self.ob("unwind/fde", ops is not None, f"return address {u}+{pos} is covered by no unwind information")
        if at is None or pos < at:
            raise Unsupported("unwinding from inside a prologue")
        r = dict(regs)
        frame = None
        for d, a in ops:
            if d == ".seh_setframe":
                b = r[self.arch.regname(a[0])[0]]
                frame = None if b is None else simp(b - self.bv(self.cfi_int(a[1])))
        base = frame if any(d == ".seh_setframe" for d, a in ops) else r["sp"]
        for d, a in reversed(ops):
            if d == ".seh_setframe":
                r["sp"] = frame
            elif d == ".seh_stackalloc":
                r["sp"] = None if r["sp"] is None else simp(r["sp"] + self.bv(self.cfi_int(a[0])))
            elif d == ".seh_pushreg":
                sp = r["sp"]
                r[self.arch.regname(a[0])[0]] = None if sp is None else self.peek(sp)
                r["sp"] = None if sp is None else simp(sp + self.bv(self.pb))
            elif d == ".seh_savereg":
                r[self.arch.regname(a[0])[0]] = None if base is None else self.peek(simp(base + self.bv(self.cfi_int(a[1]))))
            else:
                raise Unsupported(f"directive {d}")
            self.ob("unwind/cfa", r["sp"] is not None, f"{d} at {u} uses a stack pointer that cannot be restored")
        pc = self.peek(r["sp"])
        r["sp"] = simp(r["sp"] + self.bv(self.pb))
        return r["sp"], pc, r

    def unwind_seh(self, u, pos, regs, P):
        self.unwound(u, pos, P, *self.seh_step(u, pos, regs))

    def teb_field(self, seg, ofs):
        if self.arch.teb is None or self.arch.teb[0] != seg:
            raise Unsupported(f"{seg} segment access")
        n = number(ofs)
        f = self.arch.teb[1].get(n)
        if f is None:
            raise Unsupported(f"offset {ofs} of the thread environment block")
        return f

    def teb_load(self, r):
        """the thread that runs on r"""
        if self.arch.teb is None:
            return
        self.teb = dict(r.teb, el=r.teb_el, self=z3.BitVec("teb", self.W))

    def teb_init(self, r, el=None):
        """the operating system's view of a stack"""
        r.teb = None
        if self.arch.teb is None:
            return
        r.teb = {k: self.sym(f"{r.name}.{k}") for k in ("base", "limit", "dealloc", "guar")}
        if el:
            r.teb_el = self.seh_record(self.bv(-1), self.final_handler())

    def final_handler(self):
        f = z3.BitVec("FinalExceptionHandler", self.W)
        self.assume(f != 0)
        return f

    def static_values(self, path):
        return [self.final_handler()] if self.arch.teb is not None and not self.x64 else []

    def seh_record(self, nxt, handler):
        """address of an exception registration record of compiled code"""
        ty = self.prog.by_str.get("[usize; 2]")
        if self.x64 or ty is None:
            return self.sym("el")
        o = self.newobj("seh-record", ty, Agg(ty, 0, [I(self.usize, nxt), I(self.usize, handler)]), "heap")
        o.seg = None
        e = self.objsym(o)
        self.assume(e != self.bv(-1))
        return e

    def teb_user(self, act=None):
        """compiled code ran on the current stack: it may have grown, its guarantee may have
        been changed, and (inside a function) exception handlers may be registered"""
        if self.arch.teb is None:
            return
        r = self.cur.region
        for k in ("limit", "guar"):
            r.teb[k] = self.teb[k] = self.sym(f"{r.name}.{k}")
        if act is not None:
            act.teb_before = self.teb["el"]
            act.teb_el = self.teb["el"] = self.seh_record(self.teb["el"], self.sym("handler"))

    def teb_check(self, where):
        r = self.cur.region
        for k, n in (("base", "stack-base"), ("limit", "stack-limit"), ("dealloc", "deallocation-stack"), ("guar", "guaranteed-bytes")):
            self.ob("teb/" + n, self.teb[k] == r.teb[k], f"the {n} field of the thread environment block does not describe {r} {where}")

    def teb_back(self, act, where):
        if self.arch.teb is None:
            return
        self.teb_check(where)
        self.ob("teb/exception-list", self.teb["el"] == act.teb_el, f"the exception list is not the one of the running code {where}")
        self.teb["el"] = act.teb_before

    def teb_enter(self, seg):
        """a function starts at the root of a stack (or is called from inside an asm block)"""
        if self.arch.teb is None:
            return
        where = f"when {seg.sig['inst'].name} starts"
        self.teb_check(where)
        ret = self.seg_ret(seg)
        t = self.code_target(I(None, ret)) if ret is not None else None
        el = self.teb["el"]
        if t is not None and t[0] == "asm" and t[1].kind == "inline":
            return
        if self.x64:
            self.ob("teb/exception-list", el == self.bv(-1), f"the exception list is not empty {where}")
            return
        r = seg.region
        self.ob("teb/exception-list", z3.And(z3.UGE(el, seg.E), z3.ULT(el + 8, r.hi), el & 3 == 0) if self.region_of(el) is r else False,
                f"the exception list does not start inside the stack {where}")
        nxt, h = self.peek(el), self.peek(simp(el + 4))
        self.ob("teb/exception-list", nxt is not None and h is not None, f"the first exception handler of the stack is not initialised {where}")
        self.ob("teb/exception-list", z3.And(nxt == self.bv(-1), h == self.final_handler()), f"the exception list does not end with the final handler {where}")

    def unwind_ehabi(self, u, pos, regs, P):
        self.unwound(u, pos, P, *self.eh_step(u, pos, regs))

    def unwound(self, u, pos, P, vsp, pc, r):
        self.ob("unwind/cfa", vsp == P.A, f"the stack pointer restored at {u}+{pos} must be {P.A} of the parent")
        t = self.code_target(I(None, pc)) if pc is not None else None
        self.ob("unwind/return-address", t is not None and t[0] == "asm" and t[1] is P.block,
                f"restored return address {pc} is not a resume point of the parent's asm block")
        outs = {o["reg"] for o in P.term["operands"] if o["k"] in ("out", "inout")}
        for g in self.gprs:
            if g not in outs and g != "sp":
                self.ob("unwind/registers", r.get(g) is not None, f"{g} of the parent cannot be restored")
                self.ob("unwind/registers", r[g] == P.entry[g], f"{g} of the parent")

    def cfi_rules(self, row, regs):
        """the canonical frame address and the register rules of a CFI row, evaluated in regs"""
        kind = row["cfa"]
        if kind[0] == "reg":
            b = regs.get(kind[1])
            cfa = None if b is None else simp(b + self.bv(kind[2]))
        else:
            cfa = self.dwexpr(kind[1], regs)

        def rule(r):
            if r == "ip" and self.arch.lr is not None:
                r = self.arch.lr          # the return address column
            q = row["rules"].get(r)
            if q is None:
                return regs.get(r)
            if q[0] == "off":
                return self.peek(simp(cfa + self.bv(q[1])))
            if q[0] == "reg":
                return regs.get(q[1])
            if q[0] == "expr":
                a = self.dwexpr(q[1], regs, cfa)
                return None if a is None else self.peek(a)
            if q[0] == "valexpr":
                return self.dwexpr(q[1], regs, cfa)
            return None
        return cfa, rule

    def unwind_row(self, u, pos, row, regs, P):
        cfa, rule = self.cfi_rules(row, regs)
        self.ob("unwind/cfa", cfa is not None, f"canonical frame address at {u}+{pos} cannot be computed")
        self.ob("unwind/cfa", cfa == P.A, f"canonical frame address at {u}+{pos} must be the stack pointer {P.A} of the parent")
        ip = rule("ip")
        t = self.code_target(I(None, ip)) if ip is not None else None
        self.ob("unwind/return-address", t is not None and t[0] == "asm" and t[1] is P.block,
                f"restored return address {ip} is not a resume point of the parent's asm block")
        if row["signal"]:
            self.ob("unwind/return-address", t[2] < len(P.block.insns),
                    "the restored return address is at the end of the asm block, where the caller's unwind tables do not apply")
        P.cfi_label = (t[1], t[2])
        outs = {o["reg"] for o in P.term["operands"] if o["k"] in ("out", "inout")}
        for g in self.gprs:
            if g in outs or g == "sp":
                continue
            v = rule(g)
            self.ob("unwind/registers", v is not None, f"{g} of the parent cannot be restored")
            self.ob("unwind/registers", v == P.entry[g], f"{g} of the parent")


_NOUNIT = Unit("compiled code", "none")


def opts(s):
    return {x.strip() for x in re.split(r"[|,\s]+", s or "") if x.strip()}
