"""Symbolic MIR machine: memory, ownership, calls, unwinding.

The machine executes the MIR that rustc produced for /repo; user code is represented by
environment programs (Python generators) that may do exactly what the API contracts allow.
"""
import z3
from .core import *
from .mir import canon, strip_generics, Ty
from .asm import AsmMixin
from .builtins import BuiltinMixin

MAXSTEPS = 60000
_BV = {}


def const_of(e):
    """python int of a constant bit-vector or None"""
    e = simp(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return None


class Seg:
    """A maximal run of ordinary compiled code on one stack: the frames between an entry
    from asm (or the environment) and the next stack switch."""

    def __init__(self, kind, region, E, entry_regs=None, sig=None):
        self.kind, self.region, self.E, self.entry_regs, self.sig = kind, region, E, entry_regs, sig
        self.frames = []
        self.objs = []
        self.owner = None       # ghost: coroutine / on_stack request this segment belongs to
        self.nstack = 0
        self.dead = False

    def __repr__(self):
        return f"seg<{self.kind},{self.region},{self.frames[:1]}>"


class Act:
    """A segment parked inside an asm block."""
    n = 0

    def __init__(self, seg, block, A, regs, frame, term, req):
        self.seg, self.block, self.A, self.regs, self.frame, self.term, self.req = seg, block, A, regs, frame, term, req
        self.left = False


class Frame:
    def on_unwind(self, m, payload):
        return False

    def kill(self, m):
        pass


class CbFrame(Frame):
    """Runs on_result callback."""

    def __init__(self, cb, ucb=None):
        self.cb, self.ucb = cb, ucb

    def on_result(self, m, v):
        m.pop()
        self.cb(v)

    def on_unwind(self, m, payload):
        if self.ucb:
            m.pop()
            self.ucb(payload)
            return True
        return False

    def step(self, m):
        raise Unsupported("CbFrame step")


class DropFrame(Frame):
    """Drop glue: drops a list of (lv, ty); on a panic continues with the remaining fields."""

    def __init__(self, items, free=None):
        self.items = list(items)
        self.payload = None
        self.free = free or []

    def step(self, m):
        if self.items:
            lv, ty = self.items.pop(0)
            m.drop_one(self, lv, ty)
            return
        for f in self.free:
            f()
        if self.payload is not None:
            p, self.payload = self.payload, None
            m.pop()
            m.unwind(p)
        else:
            m.pop()
            m.ret(None)

    def on_result(self, m, v):
        pass

    def on_unwind(self, m, payload):
        if self.payload is not None:
            m.abort("panic in a destructor during cleanup")
        if self.items or self.free:
            self.payload = payload
            return True
        return False

    def __repr__(self):
        return "drop-glue"


class EnvFrame(Frame):
    def __init__(self, gen, name):
        self.gen, self.name = gen, name
        self.send = None
        self.started = False
        self.req = None
        self.live = True

    def __repr__(self):
        return f"env:{self.name}"

    def _drive(self, m, f):
        try:
            op = f()
        except StopIteration as s:
            m.pop()
            m.ret(s.value)
            return
        except PanicEx as p:
            m.pop()
            m.unwind(p.payload)
            return
        m.do_op(self, op)

    def step(self, m):
        m.observe(self)
        v, self.send = self.send, None
        if not self.started:
            self.started = True
            self._drive(m, lambda: next(self.gen))
        else:
            self._drive(m, lambda: self.gen.send(v))

    def on_result(self, m, v):
        self.req = None
        self.send = v

    def on_unwind(self, m, payload):
        self.req = None
        m.in_throw = True
        if not self.started:
            return False
        self._drive(m, lambda: self.gen.throw(PanicEx(payload)))
        return True


class MIRFrame(Frame):
    def __init__(self, m, inst, body, name, args):
        self.inst, self.body, self.name = inst, body, name
        self.bb, self.si = 0, 0
        self.locals = {}
        self.payload = None
        self.uw = None
        self.on_ret = None
        self.seg = m.cur
        self.prog = m.prog
        self.blocks = body["blocks"]
        argc = body["argc"]
        ltys = body["locals"]
        sp = body["spread"]
        if sp is not None:
            last = args[-1]
            if isinstance(last, Agg) and len(args) == sp:
                pass
            else:
                tup = Agg(m.prog.ty(ltys[sp]), 0, args[sp - 1:])
                args = list(args[:sp - 1]) + [tup]
        elif len(args) != argc:
            # rust-call: untuple the last argument
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].fields) == argc:
                args = list(args[:-1]) + list(args[-1].fields)
            else:
                raise Unsupported(f"argument count mismatch calling {name}")
        elif argc == 2 and isinstance(args[-1], Agg) and args[-1].ty is not None and args[-1].ty.kind == "tuple" and len(args[-1].fields) == 1:
            # rust-call with one argument
            p = m.prog.ty(ltys[argc])
            if p.key != args[-1].ty.key and p.key == args[-1].ty.fields()[0].key:
                args = [args[0], args[-1].fields[0]]
        for i in range(len(ltys)):
            if i == 0 or i <= argc:
                self.newlocal(m, i, args[i - 1] if 0 < i <= argc else None)

    def __repr__(self):
        return self.name

    def newlocal(self, m, i, v=None):
        ty = m.prog.ty(self.body["locals"][i])
        old = self.locals.get(i)
        if old is not None:
            old.live = False
        o = m.newobj(f"{self.name.split('::')[-1]}._{i}", ty, v if v is not None else Uninit(ty), "local")
        self.locals[i] = o
        return o

    def local(self, m, i):
        o = self.locals.get(i)
        if o is None:
            o = self.newlocal(m, i)
        return o

    def kill(self, m):
        for o in self.locals.values():
            o.live = False

    # ---- results
    def on_result(self, m, v):
        cb, self.on_ret = self.on_ret, None
        cb(v)

    def on_unwind(self, m, payload):
        uw = self.uw
        self.on_ret = None
        if uw is None or uw["k"] == "continue":
            return False
        if uw["k"] == "unreachable":
            m.fail("unwind/unreachable", f"a panic unwinds through a place of {self.name} that must not unwind")
        if uw["k"] == "terminate":
            m.abort(f"panic in {self.name} reached a no-unwind boundary")
        self.payload = payload
        self.goto(uw["bb"])
        return True

    def goto(self, bb):
        self.bb, self.si = bb, 0

    # ---- execution
    def step(self, m):
        b = self.blocks[self.bb]
        st = b["s"]
        while self.si < len(st):
            s = st[self.si]
            self.si += 1
            m.tick()
            k = s["k"]
            if k == "assign":
                ty, lv = self.place(m, s["place"])
                v = self.rvalue(m, s["rv"], ty)
                m.write(lv, ty, v)
            elif k == "live":
                self.newlocal(m, s["l"])
            elif k == "dead":
                o = self.locals.get(s["l"])
                if o is not None:
                    o.live = False
            elif k == "assume":
                v = self.operand(m, s["op"])
                m.require("ub/assume", m.truth(v), f"assume in {self.name}")
            elif k == "setdiscr":
                ty, lv = self.place(m, s["place"])
                v = m.read(lv, ty)
                if isinstance(v, Agg) and v.variant == s["v"]:
                    continue
                m.write(lv, ty, Agg(ty.core, s["v"], [Uninit(f) for f in ty.core.fields(s["v"])]))
            elif k == "copy":
                src, dst, n = (self.operand(m, s[x]) for x in ("src", "dst", "n"))
                m.copy_nonoverlapping(src, dst, n)
            else:
                raise Unsupported(f"statement {k}")
        m.tick()
        self.term(m, b["t"])

    def place(self, m, p):
        """returns (declared type, lv)"""
        l = p["l"]
        ty = m.prog.ty(self.body["locals"][l])
        o = self.local(m, l)
        lv = LV(o, (), ty)
        variant = 0
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                v = m.read(lv, ty)
                to = ty.to
                if to is None:
                    to = ty.core.to
                lv = m.deref(v, to)
                ty = to
                variant = 0
            elif k == "field":
                fty = m.prog.ty(e["ty"])
                lv = m.field(lv, ty, variant, e["i"], fty)
                ty = fty
                variant = 0
            elif k == "downcast":
                variant = e["v"]
            elif k in ("index", "cindex"):
                if k == "index":
                    iv = const_of(m.read(LV(self.local(m, e["local"]), (), None), m.prog.ty(self.body["locals"][e["local"]])).e)
                    if iv is None:
                        raise Unsupported("symbolic index")
                else:
                    if e["from_end"]:
                        raise Unsupported("index from end")
                    iv = e["off"]
                ety = m.prog.ty(ty.j["elem"])
                lv = m.index(lv, ty, iv, ety)
                ty = ety
            elif k == "cast":
                ty = m.prog.ty(e["ty"])
            else:
                raise Unsupported(f"projection {k}")
        return ty, lv

    def operand(self, m, o):
        k = o["k"]
        if k in ("copy", "move"):
            ty, lv = self.place(m, o["place"])
            return m.read(lv, ty)
        if k == "const":
            return m.const(o["c"])
        if k == "rtcheck":
            return m.boolv(o["v"])
        raise Unsupported(f"operand {k}")

    def optype(self, m, o):
        if o["k"] in ("copy", "move"):
            ty = m.prog.ty(self.body["locals"][o["place"]["l"]])
            for e in o["place"]["p"]:
                k = e["k"]
                if k == "deref":
                    ty = ty.to or ty.core.to
                elif k in ("field", "cast"):
                    ty = m.prog.ty(e["ty"])
                elif k in ("index", "cindex"):
                    ty = m.prog.ty(ty.j["elem"])
            return ty
        if o["k"] == "const":
            return m.prog.ty(o["c"]["ty"])
        return m.boolty

    def rvalue(self, m, r, ty):
        k = r["k"]
        if k == "use":
            return self.operand(m, r["op"])
        if k in ("ref", "rawptr"):
            # &*p / &raw *p keeps the pointer (including metadata)
            pl = r["place"]
            if pl["p"] and pl["p"][-1]["k"] == "deref":
                base = {"l": pl["l"], "p": pl["p"][:-1]}
                bty, blv = self.place(m, base)
                v = m.read(blv, bty)
                if isinstance(v, I):
                    return v.retype(ty.core)
            pty, lv = self.place(m, pl)
            return m.addr_of(lv, pty, ty.core)
        if k == "agg":
            return self.aggregate(m, r, ty)
        if k == "discr":
            pty, lv = self.place(m, r["place"])
            return m.discriminant(m.read(lv, pty), pty, ty)
        if k == "bin":
            return m.binop(r["op"], self.operand(m, r["a"]), self.operand(m, r["b"]), ty,
                           self.optype(m, r["a"]), self.optype(m, r["b"]))
        if k == "un":
            return m.unop(r["op"], self.operand(m, r["a"]), ty)
        if k == "cast":
            return m.cast(r["ck"], self.operand(m, r["op"]), self.optype(m, r["op"]), m.prog.ty(r["ty"]))
        if k == "repeat":
            v = self.operand(m, r["op"])
            return Agg(ty, 0, [v] * (r["n"] or 0))
        raise Unsupported(f"rvalue {k}")

    def aggregate(self, m, r, dty):
        fs = [self.operand(m, f) for f in r["fields"]]
        a = r["a"]
        if a == "tuple":
            return Agg(dty.core, 0, fs)
        if a == "array":
            return Agg(dty.core, 0, fs)
        if a in ("adt", "closure"):
            ty = m.prog.ty(r["ty"])
            if a == "adt" and "active" in r:
                sf = ty.strip_field()
                if sf is not None:
                    return fs[0] if r["active"] == sf else Uninit(ty.core)
                return Un(ty, r["active"], fs[0])
            sf = ty.strip_field()
            if sf is not None:
                v = fs[sf]
                return v
            return Agg(ty, r.get("variant", 0), fs)
        if a == "rawptr":
            p, meta = fs
            md = None
            if isinstance(meta, I):
                md = ("len", meta.e)
            elif isinstance(p, I) and p.meta:
                md = p.meta
            return I(dty.core, p._e, p.lv, md, p.code, p.mk)
        raise Unsupported(f"aggregate {a}")

    def term(self, m, t):
        k = t["k"]
        if k == "goto":
            self.goto(t["t"])
        elif k == "switch":
            v = self.operand(m, t["op"])
            opts = []
            neg = []
            if not isinstance(v, I):
                m.fail("ub/switch", f"branch on {v} in {self.name}")
            w = v.e.size()
            for val, bb in t["targets"]:
                c = v.e == z3.BitVecVal(val, w)
                opts.append((bb, c))
                neg.append(z3.Not(c))
            ob = t["otherwise"]
            obt = self.blocks[ob]
            opts.append((ob, z3.And(*neg) if neg else z3.BoolVal(True)))
            self.goto(m.branch(opts, f"{self.name}:bb{self.bb}"))
        elif k == "return":
            v = m.read(LV(self.locals[0], (), None), m.prog.ty(self.body["locals"][0]), allow_uninit=True)
            m.pop()
            m.ret(v)
        elif k == "resume":
            p = self.payload
            m.pop()
            m.unwind(p)
        elif k == "terminate":
            m.abort(f"panic in {self.name} reached a no-unwind boundary")
        elif k == "unreachable":
            m.fail("ub/unreachable", f"unreachable code reached in {self.name}")
        elif k == "assert":
            v = self.operand(m, t["cond"])
            c = m.truth(v)
            if not t["expected"]:
                c = z3.Not(c)
            ok = m.branch([(True, c), (False, z3.Not(c))], f"{self.name}:assert")
            if ok:
                self.goto(t["t"])
            else:
                self.uw = t["unwind"]
                m.lib_panic("assert: " + t["msg"][:60])
        elif k == "drop":
            ty, lv = self.place(m, t["place"])
            self.uw = t["unwind"]
            self.on_ret = lambda v: self.goto(t["t"])
            m.push(DropFrame([(lv, ty)]))
        elif k == "call":
            self.call(m, t)
        elif k == "asm":
            m.exec_asm(self, t)
        else:
            raise Unsupported(f"terminator {k}")

    def call(self, m, t):
        self.uw = t["unwind"]
        args = [self.operand(m, a) for a in t["args"]]
        atys = [self.optype(m, a) for a in t["args"]]
        dest = t["dest"]

        def done(v):
            if t["t"] is None:
                m.fail("ub/diverging-return", f"a diverging call returned in {self.name}")
            ty, lv = self.place(m, dest)
            m.write(lv, ty, v if v is not None else m.unit_of(ty))
            self.goto(t["t"])
        self.on_ret = done
        f = t["func"]
        if f["k"] == "const" and f["c"].get("k") == "fn":
            dty = self.optype(m, {"k": "copy", "place": dest})
            m.call_callee(f["c"]["callee"], args, atys, dty)
            return
        fv = self.operand(m, f)
        m.call_value(fv, args)


class Machine(AsmMixin, BuiltinMixin):
    Act = Act

    def __init__(self, prog, rec, decisions=()):
        self.prog, self.rec = prog, rec
        self.W, self.pb = prog.W, prog.pb
        self.x64 = prog.target.startswith("x86_64")
        self.solver = Solver(rec)
        self.dec = list(decisions)
        self.di = 0
        self.arity = []
        self.trace = []
        self.syms = {}
        self.counter = 0
        self.objn = 0
        self.toks = []
        self.boxes = []
        self.addrmap = {}
        self.symobj = {}
        self.statics = []
        self.symreg = {}
        self.regions = []
        self.acts = []
        self.cur = None
        self.steps = 0
        self.sizes = {}
        self.wordvals = {}
        self.wordmemo = {}
        self.garbs = set()
        self.expect_abort = None
        self.events = []
        self.boolty = prog.by_str.get("bool") or Ty(prog, -1, {"str": "bool", "kind": "bool", "size": 1, "align": 1})
        self.usize = prog.by_str.get("usize") or Ty(prog, -2, {"str": "usize", "kind": "int", "signed": False, "size": self.pb, "align": self.pb})
        self.done = False
        self.in_throw = False
        self.hooks = {}
        self.regs = None
        self.init_asm()
        self.where = ""

    # ------------------------------------------------------------ bookkeeping
    def tick(self):
        self.steps += 1
        self.rec.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported("step limit (unbounded loop?)")

    def bv(self, n, w=None):
        k = (n, w or self.W)
        r = _BV.get(k)
        if r is None:
            r = _BV[k] = z3.BitVecVal(*k)
        return r

    def sym(self, name, w=None):
        self.counter += 1
        n = f"{name}!{self.counter}"
        return z3.BitVec(n, w or self.W)

    def assume(self, c):
        self.solver.add(c)

    def location(self):
        out = []
        for f in reversed(self.cur.frames if self.cur else []):
            if isinstance(f, MIRFrame):
                sp = f.blocks[f.bb].get("span", "")
                out.append(f"{f.name}@{sp}")
            else:
                out.append(repr(f))
        return " < ".join(out[:5])

    def ob(self, name, cond, detail=""):
        """Record an obligation; cond: bool or z3 Bool. Continues with cond assumed."""
        if not isinstance(cond, z3.ExprRef):
            cond = bool(cond)
        if isinstance(cond, bool):
            if cond:
                self.rec.backend["structural"] += 1
                self.rec.ob(name, "ok")
                return True
            self.rec.ob(name, "fail", {"detail": str(detail)[:500], "where": self.location(), "trace": self.trace[-30:]})
            if self.rec.soft(name):
                return False
            raise PathEnd(name)
        r = self.solver.proves(cond)
        if r == "yes":
            self.rec.ob(name, "ok")
            return True
        det = {"detail": str(detail)[:500], "where": self.location(), "trace": self.trace[-30:], "goal": str(simp(cond))[:600]}
        if r == "no":
            det["model"] = self.solver.model_for(z3.Not(cond))
        self.rec.ob(name, "fail" if r == "no" else "unknown", det)
        if self.solver.check(cond) == "unsat":
            if self.rec.soft(name):
                return False
            raise PathEnd(name)
        self.assume(cond)
        return False

    def fail(self, name, detail=""):
        self.ob(name, False, detail)

    def require(self, name, cond, detail=""):
        self.ob(name, cond, detail)

    def abort(self, why):
        if self.expect_abort is None:
            self.fail("abort/unexpected", why)
        cb = self.expect_abort
        self.ob("abort/expected", True)
        cb(self, why)
        self.cover("abort:" + why.split(" in ")[0])
        raise PathEnd("abort")

    def cover(self, name):
        self.rec.covers[name] = self.rec.covers.get(name, 0) + 1

    def branch(self, opts, label=""):
        feas = []
        for v, c in opts:
            c = simp(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                feas = [(v, None)]
                break
            r = self.solver.check(c)
            if r != "unsat":
                feas.append((v, c))
        if not feas:
            raise PathEnd("infeasible")
        i = 0
        if len(feas) > 1:
            i = self.pick(len(feas), label)
        v, c = feas[i]
        if c is not None:
            self.assume(c)
        return v

    def pick(self, n, label=""):
        if self.di < len(self.dec):
            i = self.dec[self.di]
        else:
            i = 0
            self.dec.append(0)
        if self.di < len(self.arity):
            self.arity[self.di] = n
        else:
            self.arity.append(n)
        self.di += 1
        self.trace.append(f"{label}={i}/{n}")
        return i

    def choose(self, options, label=""):
        """scenario-level nondeterminism"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.pick(len(options), label)
        self.trace[-1] = f"{label}={options[i]}"
        return options[i]

    def decide(self, c, label=""):
        return self.branch([(True, c), (False, z3.Not(c))], label)

    # ------------------------------------------------------------ types / layout
    def size_of(self, ty):
        if ty.size is not None:
            return self.bv(ty.size)
        if ty.zst:
            return self.bv(0)
        c = ty.core
        if c is not ty:
            return self.size_of(c)
        if c.kind == "array":
            return simp(self.bv(c.j["len"]) * self.size_of(self.prog.ty(c.j["elem"])))
        return self._layout(c)[0]

    def align_of(self, ty):
        if ty.path == "core::ptr::Unaligned":
            return self.bv(1)
        if ty.align is not None:
            return self.bv(ty.align)
        c = ty.core
        if c is not ty:
            return self.align_of(c)
        if c.kind == "array":
            return self.align_of(self.prog.ty(c.j["elem"]))
        return self._layout(c)[1]

    def _layout(self, c):
        k = c.key
        r = self.sizes.get(k)
        if r is not None:
            return r
        if c.unsized:
            raise Unsupported(f"layout of unsized {c.str}")
        s, a = z3.BitVec(f"size<{k}>", self.W), z3.BitVec(f"align<{k}>", self.W)
        self.sizes[k] = (s, a)
        self.assume(a != 0)
        self.assume(a & (a - 1) == 0)
        self.assume(z3.ULE(a, self.bv(1 << 29)))
        self.assume(s & (a - 1) == 0)
        self.assume(z3.ULE(s, self.bv((1 << (self.W - 1)) - 1)))
        nv = max(1, c.nvariants()) if c.kind == "adt" else 1
        for v in range(nv):
            fs = c.fields(v)
            tot = None
            for f in fs:
                if f.zst and f.align == 1:
                    continue
                fs_, fa = self.size_of(f), self.align_of(f)
                self.assume(z3.ULE(fa, a))
                self.assume(z3.ULE(fs_, s))
                if c.adt != "union":
                    tot = fs_ if tot is None else tot + fs_
            if tot is not None and len(fs) > 1:
                self.assume(z3.ULE(tot, s))
        return s, a

    def offset_of(self, ty, variant, i):
        """byte offset of a field of a core type"""
        j = ty.j
        if ty.kind == "adt" and ty.adt == "union":
            return self.bv(0)
        if ty.kind == "array":
            return simp(self.bv(i) * self.size_of(self.prog.ty(j["elem"])))
        if "layout_variants" in j and ty.adt == "enum":
            return self.bv(j["layout_variants"]["variants"][variant]["offsets"][i])
        offs = j.get("offsets")
        if isinstance(offs, list) and i < len(offs):
            return self.bv(offs[i])
        fs = ty.fields(variant)
        if len(fs) == 1 and ty.adt != "enum":
            return self.bv(0)
        if j.get("repr_c") and i == 0:
            return self.bv(0)
        n = f"off<{ty.key}#{variant}.{i}>"
        if n not in self.sizes:
            o = z3.BitVec(n, self.W)
            self.sizes[n] = o
            fs_, fa = self.size_of(fs[i]), self.align_of(fs[i])
            self.assume(o & (fa - 1) == 0)
            s = self.size_of(ty)
            self.assume(z3.ULE(o, s))
            self.assume(z3.ULE(fs_, s - o))
            # fields of one variant do not overlap
            for jx in range(len(fs)):
                if jx != i and f"off<{ty.key}#{variant}.{jx}>" in self.sizes:
                    o2, s2 = self.sizes[f"off<{ty.key}#{variant}.{jx}>"], self.size_of(fs[jx])
                    self.assume(z3.Or(z3.ULE(o + fs_, o2), z3.ULE(o2 + s2, o)))
        return self.sizes[n]

    # ------------------------------------------------------------ objects
    def newobj(self, name, ty, val, kind="local", seg=None):
        self.objn += 1
        o = Obj(self.objn, name, ty, val, kind, seg or self.cur)
        if o.seg is not None and kind == "local":
            o.seg.objs.append(o)
        return o

    def objsym(self, o):
        if o._sym is None:
            o._sym = z3.BitVec(f"obj@{o.name}#{o.id}", self.W)
            self.symobj[o._sym.decl().name()] = o
            self.assume(o._sym != 0)
            # objects do not wrap around the address space and are aligned
            if not o.ty.unsized and o.kind != "code":
                s, a = self.size_of(o.ty), self.align_of(o.ty)
                self.assume(o._sym & (a - 1) == 0)
                self.assume(z3.ULE(o._sym, self.bv(0) - s - 16))
        return o._sym

    def lv_addr(self, lv):
        if isinstance(lv, RLV):
            return lv.addr
        if isinstance(lv, ZLV):
            return self.bv(8)
        e = self.objsym(lv.obj)
        ty = lv.obj.ty.core
        for v, i in lv.path:
            if v == -2:        # byte offset marker
                e = e + i
                continue
            e = e + self.offset_of(ty, max(v, 0), i)
            ty = ty.fields(max(v, 0))[i].core
        e = simp(e)
        self.addrmap.setdefault(e.get_id(), lv)
        _keep(e)
        return e

    def addr_of(self, lv, ty, pty):
        meta = None
        if isinstance(lv, RLV):
            return I(pty, lv.addr, None)
        if isinstance(lv, ZLV):
            return I(pty, self.bv(8), None)
        return I(pty, None, LV(lv.obj, lv.path, ty), meta, mk=self.lv_addr)

    def ref(self, obj, mut=True, pty=None):
        """pointer value to an environment-owned object"""
        return I(pty, None, LV(obj, (), obj.ty), None, mk=self.lv_addr)

    def node_ty(self, lv):
        ty = lv.obj.ty.core
        for v, i in lv.path:
            ty = ty.fields(max(v, 0))[i].core
        return ty

    def deref(self, v, to):
        if not isinstance(v, I):
            self.fail("mem/deref", f"dereference of {v}")
        if to is not None and not to.unsized and to.zst:
            return ZLV(to)
        if v.lv is not None:
            return self.cast_lv(v.lv, to)
        return self.resolve(v.e, to)

    def resolve(self, e, to):
        e = simp(e)
        lv = self.addrmap.get(e.get_id())
        if lv is not None:
            return self.cast_lv(lv, to)
        vs = vars_of(e)
        regs = {id(self.symreg[n]): self.symreg[n] for n in vs if n in self.symreg}
        if len(regs) == 1:
            return RLV(list(regs.values())[0], e, to)
        if len(regs) > 1:
            self.fail("mem/provenance", f"address mixes two stacks: {e}")
        objs = [self.symobj[n] for n in vs if n in self.symobj]
        if len(objs) == 1:
            off = const_of(e - self.objsym(objs[0]))
            if off is not None:
                lv = self.find_path(objs[0], off, to)
                if lv is not None:
                    return lv
            inside = z3.ULT(e - self.objsym(objs[0]), self.size_of(objs[0].ty))
            if self.solver.proves(inside) == "yes":
                raise Unsupported(f"access to a part of {objs[0].name} that is not one of its fields")
        self.fail("mem/provenance", f"dereference of an address that is not inside any object or stack: {e}")

    def find_path(self, obj, off, to):
        """sub-object of obj at a constant byte offset with the wanted type"""
        def rec(ty, path, off):
            ty = ty.core
            if off == 0 and (to is None or ty.key == to.key):
                return path
            n = max(1, ty.nvariants()) if ty.kind == "adt" else 1
            for v in range(n):
                for i, f in enumerate(ty.fields(v)):
                    if f.zst:
                        continue
                    o = const_of(self.offset_of(ty, v, i))
                    s = const_of(self.size_of(f))
                    if o is None or s is None:
                        continue
                    if o <= off < o + s:
                        r = rec(f, path + ((-1 if ty.adt == "union" else v, i),), off - o)
                        if r is not None:
                            return r
            return None
        p = rec(obj.ty, (), off)
        if p is None:
            return None
        return LV(obj, p, to)

    def cast_lv(self, lv, to):
        if to is None or isinstance(lv, (RLV, ZLV)):
            if isinstance(lv, RLV):
                return RLV(lv.region, lv.addr, to)
            return lv
        n = self.node_ty(lv)
        if to.unsized or n.key == to.key:
            return LV(lv.obj, lv.path, to)
        # first-field descent
        p = self._descend(n, to, lv.path)
        if p is not None:
            return LV(lv.obj, p, to)
        # ascent: pointer to a first field used as pointer to the container
        path = lv.path
        while path:
            path = path[:-1]
            l2 = LV(lv.obj, path, None)
            if const_of(self.lv_addr(LV(lv.obj, lv.path, None)) - self.lv_addr(l2)) == 0 and self.node_ty(l2).key == to.key:
                return LV(lv.obj, path, to)
        return LV(lv.obj, lv.path, to)

    def _descend(self, n, to, path):
        if n.key == to.key:
            return path
        if n.kind in ("adt", "tuple", "closure", "array"):
            if n.adt == "enum":
                return None
            if n.adt == "union":
                for i, f in enumerate(n.fields()):
                    if f.key == to.key:
                        return path + ((-1, i),)
                return None
            for i, f in enumerate(n.fields()):
                if f.zst:
                    continue
                if const_of(self.offset_of(n, 0, i)) == 0:
                    return self._descend(f.core, to, path + ((0, i),))
        return None

    def field(self, lv, ty, variant, i, fty):
        if fty.zst:
            return ZLV(fty)
        if isinstance(lv, ZLV):
            return ZLV(fty)
        sf = ty.strip_field()
        if sf is not None:
            if i == sf:
                return LV(lv.obj, lv.path, fty) if isinstance(lv, LV) else RLV(lv.region, lv.addr, fty)
            return ZLV(fty)
        c = ty.core
        if isinstance(lv, RLV):
            return RLV(lv.region, simp(lv.addr + self.offset_of(c, variant, i)), fty)
        n = self.node_ty(lv)
        if n.key != c.key:
            # view through a reinterpreted pointer
            a = simp(self.lv_addr(lv) + self.offset_of(c, variant, i))
            off = const_of(a - self.objsym(lv.obj))
            if off is not None:
                r = self.find_path(lv.obj, off, fty)
                if r is not None:
                    return r
            raise Unsupported(f"field of reinterpreted place {c.str} over {n.str}")
        return LV(lv.obj, lv.path + ((-1 if c.adt == "union" else variant, i),), fty)

    def index(self, lv, ty, i, ety):
        if isinstance(lv, RLV):
            return RLV(lv.region, simp(lv.addr + self.size_of(ety) * self.bv(i)), ety)
        if ety.zst:
            return ZLV(ety)
        return LV(lv.obj, lv.path + ((0, i),), ety)

    # ------------------------------------------------------------ read / write
    def live(self, obj, what):
        if not obj.live:
            self.fail("mem/live", f"{what} of {obj.name} after its storage ended")

    def walk(self, v, path, ty):
        ty = ty.core
        for var, i in path:
            fty = ty.fields(max(var, 0))[i]
            if isinstance(v, Agg):
                if var == -1 or v.variant != var or i >= len(v.fields):
                    v = Garb(fty, f"field {i} of variant {var} while the value is variant {v.variant}")
                else:
                    v = v.fields[i]
            elif isinstance(v, Un):
                if v.active == i:
                    v = v.val
                elif isinstance(v.val, (Uninit,)):
                    v = Uninit(fty)
                else:
                    # a union read through another field: same bits, other type
                    v = v.val
            elif isinstance(v, Uninit):
                v = Uninit(fty)
            elif isinstance(v, Garb):
                v = Garb(fty, v.why)
            elif isinstance(v, I):
                # scalar viewed as aggregate (e.g. fat pointer parts): reinterpret
                w = self.convert(v, ty)
                if isinstance(w, Agg) and w.variant == max(var, 0):
                    v = w.fields[i]
                else:
                    v = Garb(fty, f"projection into {v}")
            elif isinstance(v, Tok):
                raise Unsupported(f"projection into opaque value {v}")
            else:
                v = Garb(fty, "projection")
            ty = fty.core
        return v

    def read(self, lv, ty, allow_uninit=False, bytewise=False):
        if ty.zst:
            return self.unit_of(ty)
        if isinstance(lv, ZLV):
            return self.unit_of(ty)
        if isinstance(lv, RLV):
            return self.rread(lv.region, lv.addr, ty, bytewise)
        self.live(lv.obj, "read")
        v = self.walk(lv.obj.val, lv.path, lv.obj.ty)
        n = self.node_ty(lv)
        if n.key != ty.key and not (isinstance(v, I) and ty.is_scalar and n.is_scalar and n.size == ty.size):
            self.ob("mem/in-bounds", z3.ULE(self.size_of(ty), self.size_of(n)), f"read of {ty.str} from {lv.obj.name}: {n.str}")
            if not bytewise and ty.path != "core::ptr::Unaligned":
                self.ob("mem/aligned", z3.ULE(self.align_of(ty), self.align_of(n)), f"read of {ty.str} from {lv.obj.name}: {n.str}")
        v = self.convert(v, ty)
        if isinstance(v, Uninit) and ty.size is None and ty.core.adt != "union" and not allow_uninit \
                and const_of(self.size_of(ty)) is None and self.solver.proves(self.size_of(ty) == 0) == "yes":
            raise Unsupported(f"a zero-sized {ty.str} made without an operation that carries one")
        return v

    def convert(self, v, ty):
        """view bits of v as type ty"""
        c = ty.core
        if isinstance(v, Uninit):
            return Uninit(c)
        if isinstance(v, Garb):
            return v
        vt = v.ty.core if v.ty is not None else None
        if vt is not None and vt.key == c.key:
            return v
        if isinstance(v, I):
            if ty.is_scalar or c.kind == "int":
                if v.meta is not None and c.kind == "int":
                    return I(c, v.e)
                return v.retype(c)
            return self.from_word(v, c)
        if isinstance(v, Tok) and vt is not None and vt.key == c.key:
            return v
        if c.is_scalar and c.kind in ("int", "ptr", "ref", "fnptr"):
            w = self.word_of(v)
            if w is not None:
                return I(c, w)
        if isinstance(v, Agg) and c.kind in ("adt", "tuple", "array") and vt is not None:
            w = self.word_of(v)
            if w is not None and c.size is not None:
                return self.from_word(I(self.usize, w), c)
            # single-field containers
            fs = [f for f in v.fields if not (f.ty is not None and f.ty.zst)]
            if len(fs) == 1 and fs[0].ty is not None and fs[0].ty.key == c.key:
                return fs[0]
        return Garb(c, f"bits of {v} ({vt.str if vt else '?'}) viewed as {c.str}")

    def vkey(self, v):
        if isinstance(v, I):
            return ("i", simp(v.e).get_id())
        if isinstance(v, Agg):
            return ("a", v.ty.key if v.ty else "", v.variant) + tuple(self.vkey(f) for f in v.fields)
        if isinstance(v, Tok):
            return ("t", v.id)
        if isinstance(v, Un):
            return ("u", v.active, self.vkey(v.val))
        if isinstance(v, FnItem):
            return ("f", v.ty.str)
        return ("x", repr(v))

    def word_of(self, v):
        """bit pattern (word sized) of a value no larger than a word"""
        if isinstance(v, I):
            e = v.e
            if e.size() < self.W:
                return simp(z3.ZeroExt(self.W - e.size(), e))
            return e
        if isinstance(v, (Uninit, Garb, Un)) and not (isinstance(v, Un)):
            return None
        k = self.vkey(v)
        w = self.wordmemo.get(k)
        if w is None:
            ty = v.ty
            w = None
            if isinstance(v, Agg) and ty is not None and ty.core.size is not None:
                w = self._known_word(v, ty.core)
            if w is None:
                w = self.sym("bits")
                if isinstance(v, Tok):
                    v.info.setdefault("word", w)
            w = simp(w)
            _keep(w)
            self.wordmemo[k] = w
            self.wordvals.setdefault(w.get_id(), []).append(v)
        return w

    def _known_word(self, v, c):
        if c.size > self.pb:
            return None
        lvv = c.j.get("layout_variants")
        out = self.bv(0)
        fs = c.fields(v.variant)
        for i, f in enumerate(fs):
            if f.zst:
                continue
            fv = v.fields[i]
            w = self.word_of(fv)
            if w is None:
                return None
            o = const_of(self.offset_of(c, v.variant, i))
            out = out | (w << (8 * o))
        if lvv:
            enc = lvv["enc"]
            if enc["kind"] == "direct":
                tag = c.j["variants"][v.variant]["discr"]
                out = out | self.bv(tag << (8 * lvv["tag_offset"]))
            elif v.variant != enc["untagged"]:
                tag = (enc["niche_start"] + v.variant - enc["start_variant"]) & ((1 << (8 * lvv["tag_size"])) - 1)
                out = out | self.bv(tag << (8 * lvv["tag_offset"]))
        return simp(out)

    def from_word(self, v, c):
        """value of core type c whose bits are the scalar v"""
        e = simp(v.e)
        if c.zst:
            return self.unit_of(c)
        for cand in self.wordvals.get(e.get_id(), []):
            if cand.ty is not None and cand.ty.key == c.key:
                return cand
        if c.is_scalar:
            sz = c.size * 8
            if sz < e.size():
                e = simp(z3.Extract(sz - 1, 0, e))
            elif sz > e.size():
                return Garb(c, "widened bits")
            return I(c, e, v.lv, v.meta, v.code, v.mk)
        if c.size is not None and c.size <= self.pb and c.kind in ("adt", "tuple", "array"):
            r = self._known_from_word(e, c, v)
            if r is not None:
                return r
        # provable equality with some earlier encoding of the same type
        for lst in list(self.wordvals.values()):
            for cand in lst:
                if cand.ty is not None and cand.ty.key == c.key:
                    w = self.wordmemo[self.vkey(cand)]
                    if self.solver.proves(w == e) == "yes":
                        return cand
        return Garb(c, f"no value of type {c.str} was encoded as {e}")

    def _known_from_word(self, e, c, v):
        def sub(f, o):
            if f.zst:
                return self.unit_of(f)
            sz = f.size
            if sz is None:
                return None
            if o == 0 and sz * 8 == e.size():
                return self.from_word(v, f.core)
            x = simp(z3.Extract(8 * (o + sz) - 1, 8 * o, e))
            if not f.is_scalar:
                x = simp(z3.ZeroExt(self.W - x.size(), x))
            return self.from_word(I(f.core, x), f.core)
        if c.adt == "enum":
            lvv = c.j.get("layout_variants")
            if not lvv:
                vi = c.j.get("single_variant")
                if vi is None:
                    return None
                return Agg(c, vi, [sub(f, const_of(self.offset_of(c, vi, i))) for i, f in enumerate(c.fields(vi))])
            ts, to, enc = lvv["tag_size"], lvv["tag_offset"], lvv["enc"]
            tag = simp(z3.Extract(8 * (ts + to) - 1, 8 * to, e))
            opts = []
            n = c.nvariants()
            if enc["kind"] == "direct":
                for i in range(n):
                    opts.append((i, tag == z3.BitVecVal(c.j["variants"][i]["discr"] & ((1 << (8 * ts)) - 1), 8 * ts)))
                self.ob("ub/invalid-enum", z3.Or(*[o[1] for o in opts]), f"{e} as {c.str}")
            else:
                neg = []
                for i in range(enc["start_variant"], enc["end_variant"] + 1):
                    if i == enc["untagged"]:
                        continue
                    t = (enc["niche_start"] + i - enc["start_variant"]) & ((1 << (8 * ts)) - 1)
                    cnd = tag == z3.BitVecVal(t, 8 * ts)
                    opts.append((i, cnd))
                    neg.append(z3.Not(cnd))
                opts.append((enc["untagged"], z3.And(*neg)))
            vi = self.branch(opts, f"variant of {c.str}")
            fs = []
            for i, f in enumerate(c.fields(vi)):
                x = sub(f, const_of(self.offset_of(c, vi, i)))
                if x is None:
                    return None
                fs.append(x)
            return Agg(c, vi, fs)
        if c.adt == "union":
            return None
        fs = []
        for i, f in enumerate(c.fields()):
            x = sub(f, const_of(self.offset_of(c, 0, i)))
            if x is None:
                return None
            fs.append(x)
        return Agg(c, 0, fs)

    def write(self, lv, ty, v, bytewise=False):
        if ty.zst or isinstance(lv, ZLV):
            return
        if isinstance(lv, RLV):
            self.rwrite(lv.region, lv.addr, ty, v, bytewise)
            return
        self.live(lv.obj, "write")
        if lv.obj.const:
            self.fail("mem/const-write", f"write to constant memory {lv.obj.name}")
        n = self.node_ty(lv)
        if n.key != ty.key and not (ty.is_scalar and n.is_scalar and n.size == ty.size):
            self.ob("mem/in-bounds", z3.ULE(self.size_of(ty), self.size_of(n)), f"write of {ty.str} into {lv.obj.name}: {n.str}")
            if not bytewise and ty.path != "core::ptr::Unaligned":
                self.ob("mem/aligned", z3.ULE(self.align_of(ty), self.align_of(n)), f"write of {ty.str} into {lv.obj.name}: {n.str}")
        if isinstance(v, I) and n.is_scalar and v.ty is not n.core and ty.size == n.size:
            v = v.retype(n.core)
        elif isinstance(v, I) and v.ty is None:
            v = v.retype(ty.core)
        if not lv.path:
            lv.obj.val = v
            return
        lv.obj.val = self._set(lv.obj.val, lv.path, lv.obj.ty, v)

    def _set(self, cur, path, ty, v):
        if not path:
            return v
        ty = ty.core
        var, i = path[0]
        if var == -1:
            sub = cur.val if isinstance(cur, Un) and cur.active == i else Uninit(ty.fields()[i])
            return Un(ty, i, self._set(sub, path[1:], ty.fields()[i], v))
        if isinstance(cur, I):
            cur = self.convert(cur, ty)
        if not isinstance(cur, Agg) or cur.variant != var:
            if isinstance(cur, Tok):
                raise Unsupported(f"partial write into opaque value {cur}")
            cur = Agg(ty, var, [self.unit_of(f) if f.zst else Uninit(f) for f in ty.fields(var)])
        fs = list(cur.fields)
        fs[i] = self._set(fs[i], path[1:], ty.fields(var)[i], v)
        return Agg(ty, var, fs)

    def unit_of(self, ty):
        c = ty.core
        if c.kind == "fndef":
            return FnItem(c, None)
        if c.kind == "adt" and c.adt == "enum":
            vi = c.j.get("single_variant")
            if vi is None:
                vi = 0
            return Agg(c, vi, [self.unit_of(f) for f in c.fields(vi)])
        if c.kind in ("tuple", "closure", "adt") and c.adt != "union":
            return Agg(c, 0, [self.unit_of(f) for f in c.fields()])
        if c.kind == "array":
            return Agg(c, 0, [])
        return Agg(c, 0, [])

    def copy_nonoverlapping(self, src, dst, n):
        to = src.ty.to or (src.lv.ty if src.lv else None)
        if const_of(n.e) == 1:
            s = self.deref(src, to)
            d = self.deref(dst, to)
            self.write(d, to, self.read(s, to))
            return
        # `n` elements at once: the bytes of one whole object move
        if to.zst:
            return
        total = simp(self.size_of(to) * n.e)
        s, t = self.whole(src, to, total)
        if s is None:
            # the leading bytes of a word that are one whole object at the destination
            lv = self.deref(src, to)
            if isinstance(lv, LV) and self.node_ty(lv).is_scalar:
                d, t = self.whole(dst, to, total)
                if d is not None:
                    self.write(d, t, self.read(LV(lv.obj, lv.path, t), t, bytewise=True), bytewise=True)
                    return
            if self.solver.proves(total == 0) == "yes":
                return
            raise Unsupported(f"copy of {total} bytes that are not one whole object")
        v = self.read(s, t, bytewise=True)
        d, _ = self.whole(dst, to, total, t)
        if d is None:
            d = self.deref(dst, t)
        self.write(d, t, v, bytewise=True)

    def whole(self, p, elt, total, like=None):
        """the object of `total` bytes that starts at p"""
        def fits(t):
            if like is not None:
                return t.key == like.key
            if t.unsized or t.zst:
                return False
            return self.solver.proves(self.size_of(t) == total) == "yes"
        lv = self.deref(p, elt)
        if isinstance(lv, RLV):
            if like is not None:
                return RLV(lv.region, lv.addr, like), like
            for kind, a, _sz, t, _v in reversed(lv.region.log):
                if kind == "w" and simp(lv.addr - a).eq(self.bv(0)) and fits(t):
                    return RLV(lv.region, lv.addr, t), t
            return None, None
        if isinstance(lv, ZLV):
            return None, None
        a = self.lv_addr(LV(lv.obj, lv.path, None))
        path = lv.path
        while True:
            l2 = LV(lv.obj, path, None)
            t = self.node_ty(l2)
            if fits(t) and self.lv_addr(l2).eq(a):
                return LV(lv.obj, path, t), t
            if not path:
                break
            path = path[:-1]
        def down(t, path):
            if fits(t):
                return LV(lv.obj, path, t), t
            if t.kind in ("adt", "tuple", "closure", "array") and t.adt != "enum":
                for i, f in enumerate(t.fields()):
                    if f.zst or const_of(self.offset_of(t, 0, i)) != 0:
                        continue
                    r = down(f.core, path + ((-1 if t.adt == "union" else 0, i),))
                    if r[0] is not None:
                        return r
            return None, None
        return down(self.node_ty(lv), lv.path)

    def separate_objects(self, x, y):
        """different live objects do not share memory (asked for by the debug checks of core)"""
        if not (isinstance(x, I) and isinstance(y, I)):
            return False
        if isinstance(x.lv, LV) and isinstance(y.lv, LV) and x.lv.obj is not y.lv.obj and x.lv.obj.live and y.lv.obj.live:
            a, b = x.lv.obj, y.lv.obj
            if a.ty.unsized or b.ty.unsized:
                return False
            p, q = self.objsym(a), self.objsym(b)
            self.assume(z3.Or(z3.ULE(p + self.size_of(a.ty), q), z3.ULE(q + self.size_of(b.ty), p)))
            return True
        return False

    # ------------------------------------------------------------ regions
    def new_region(self, name, kind, minsize, align=16):
        self.counter += 1
        lo = z3.BitVec(f"{name}.lo!{self.counter}", self.W)
        hi = z3.BitVec(f"{name}.hi!{self.counter}", self.W)
        r = Region(f"{name}{self.counter}", lo, hi, kind)
        r.coexist = {id(q) for q in self.regions if q.live}
        self.regions.append(r)
        self.bind(lo, r)
        self.bind(hi, r)
        self.assume(z3.UGE(lo, self.bv(1 << 16)))
        self.assume(z3.ULE(hi, self.bv((1 << self.W) - (1 << 16))))
        self.assume(z3.ULT(lo, hi))
        self.assume(z3.UGE(hi - lo, self.bv(minsize)))
        self.assume(lo & self.bv(min(align, self.arch.stack_align) - 1) == 0)
        self.assume(hi & self.bv(min(align, self.arch.stack_align) - 1) == 0)
        r.anchored = True
        return r

    def bind(self, sym, region):
        self.symreg[sym.decl().name()] = region

    def region_of(self, e):
        for n in vars_of(simp(e)):
            if n in self.symreg:
                return self.symreg[n]
        return None

    def separate(self, x, y):
        """addresses of different stacks are compared: stacks that exist at the same time are
        disjoint"""
        if x.size() != self.W:
            return
        r1, r2 = self.region_of(x), self.region_of(y)
        if r1 is None or r2 is None or r1 is r2:
            return
        if id(r1) in r2.coexist or id(r2) in r1.coexist:
            self.assume(z3.Or(z3.ULE(r1.hi, r2.lo), z3.ULE(r2.hi, r1.lo)))

    def rbounds(self, r, addr, size, what):
        if not r.live:
            self.fail("mem/stack-released", f"{what} on a stack that has been released")
        if self.solver.inside(r, addr, size, self.bv(8 * self.pb)):
            self.ob("mem/stack-bounds", True)
        elif self.ob("mem/stack-bounds", z3.And(z3.UGE(addr, r.lo), z3.ULE(addr, r.hi), z3.ULE(size, r.hi - addr)),
                f"{what} of {size} bytes at {simp(addr)} in {r}"):
            self.solver.known_inside(r, addr, size)
        if getattr(r, "mapping", None) is not None:
            ok = self.hooks["os"].accessible(r.mapping, addr, size)
            self.ob("mem/accessible", ok, f"{what} of {size} bytes at {simp(addr)} in memory that is not readable and writable")

    def protected(self, r, addr, size):
        """compiled frames that live on region r must not be written by anything else"""
        for s, A in self.frames_on(r):
            self.ob("mem/live-frame", self.solver.disjoint(r, addr, addr + size, A, s.E) == "yes" or z3.Or(z3.ULE(addr + size, A), z3.UGE(addr, s.E)),
                    f"write at {simp(addr)} overlaps the live frames [{A}, {s.E}) of {s}")

    def frames_on(self, r):
        out = []
        for a in self.acts:
            if a.seg.region is r and not a.seg.dead:
                out.append((a.seg, a.A))
        return out

    def rwrite(self, r, addr, ty, v, bytewise=False):
        addr = simp(addr)
        size = self.size_of(ty)
        self.rbounds(r, addr, size, "write")
        if not bytewise and ty.path != "core::ptr::Unaligned":
            self.ob("mem/aligned", addr & (self.align_of(ty) - 1) == 0, f"write of {ty.str} at {addr}")
        self.protected(r, addr, size)
        self.kill_zombies(r)
        r.nwrites += 1
        r.log.append(("w", addr, size, ty.core, v))

    def rwrite_word(self, r, addr, v):
        addr = simp(addr)
        size = self.bv(self.pb)
        self.rbounds(r, addr, size, "write")
        self.protected(r, addr, size)
        self.kill_zombies(r)
        r.log.append(("w", addr, size, self.usize, v if isinstance(v, I) else I(self.usize, v)))

    def havoc(self, r, lo, hi):
        r.log.append(("h", simp(lo), simp(hi), None, None))
        self.kill_zombies(r)

    def kill_zombies(self, r):
        for s in r.zombies:
            for o in s.objs:
                o.live = False
        r.zombies = []

    def rread(self, r, addr, ty, bytewise=False):
        addr = simp(addr)
        size = self.size_of(ty)
        self.rbounds(r, addr, size, "read")
        if not bytewise and ty.path != "core::ptr::Unaligned":
            self.ob("mem/aligned", addr & (self.align_of(ty) - 1) == 0, f"read of {ty.str} at {addr}")
        return self.convert(self.rlookup(r, addr, size, ty), ty)

    def rlookup(self, r, addr, size, ty):
        for kind, a, s, t, v in reversed(r.log):
            if kind == "h":
                # havoc [a, s)
                if self.solver.disjoint(r, addr, addr + size, a, s) == "yes":
                    continue
                return self.garbage(r, addr, ty, "stack memory below a live stack pointer (may have been overwritten)")
            d = simp(addr - a)
            dc = const_of(d)
            sc = const_of(s)
            if dc is not None:
                if dc == 0:
                    if t.key == ty.key or self._same_word(t, ty):
                        return v
                    if const_of(size) is not None and sc is not None and const_of(size) <= sc:
                        w = self.convert(v, ty)
                        if not isinstance(w, Garb):
                            return w
                    f = self._field_at(v, t, a, addr, ty)
                    if f is not None:
                        return f
                    return self.rlookup_parts(r, addr, ty) or self.garbage(r, addr, ty, f"contains a {t.str}")
                sz = const_of(size)
                if sc is not None and dc < (1 << (self.W - 1)) and dc >= sc:
                    continue
                if sz is not None and dc >= (1 << (self.W - 1)) and ((1 << self.W) - dc) >= sz:
                    continue
            f = self._field_at(v, t, a, addr, ty)
            if f is not None:
                return f
            if self.solver.disjoint(r, addr, addr + size, a, a + s) == "yes":
                continue
            if self.solver.proves(addr == a) == "yes":
                if t.key == ty.key or self._same_word(t, ty):
                    return v
                return self.garbage(r, addr, ty, f"contains a {t.str}")
            return self.rlookup_parts(r, addr, ty) or self.garbage(r, addr, ty, f"may overlap the {t.str} written at {a}")
        k = addr.get_id()
        if k not in r.init:
            if ty.is_scalar:
                x = self.sym("stackword", ty.size * 8)
                r.init[k] = I(ty.core, x)
            else:
                r.init[k] = Garb(ty, "uninitialised stack memory")
            _keep(addr)
        return r.init[k]

    def rlookup_parts(self, r, addr, ty):
        """an array or struct of words that was written word by word"""
        c = ty.core
        if c.is_scalar or c.kind not in ("array", "tuple", "adt") or c.kind == "adt" and c.adt != "struct" or not 0 < (c.size or 0) <= 64:
            return None
        fs = c.fields()
        if len(fs) < 2 or any(f.zst or not f.is_scalar for f in fs):
            return None
        return Agg(c, 0, [self.rlookup(r, simp(addr + self.offset_of(c, 0, i)), self.size_of(f), f) for i, f in enumerate(fs)])

    def _same_word(self, a, b):
        return a.is_scalar and b.is_scalar and a.core.size == b.core.size

    def _field_at(self, v, t, base, addr, ty):
        """sub-value of an aggregate written at base"""
        if not isinstance(v, Agg):
            return None
        c = t.core
        if c.kind not in ("adt", "tuple", "closure", "array"):
            return None
        for i, f in enumerate(c.fields(v.variant)):
            if f.zst:
                continue
            fa = simp(base + self.offset_of(c, v.variant, i))
            if fa.get_id() == addr.get_id() and f.key == ty.key:
                return v.fields[i]
            r = self._field_at(v.fields[i], f, fa, addr, ty)
            if r is not None:
                return r
        return None

    def garbage(self, r, addr, ty, why):
        if ty.is_scalar:
            e = self.sym("garbage", ty.core.size * 8)
            self.garbs.add(e.decl().name())
            return I(ty.core, e)
        return Garb(ty, why)

    def kill_region(self, r):
        r.live = False
        for a in list(self.acts):
            if a.seg.region is r:
                self.discard_seg(a.seg)
                self.acts.remove(a)
        self.kill_zombies(r)

    def discard_seg(self, seg):
        seg.dead = True
        for o in seg.objs:
            o.live = False

    # ------------------------------------------------------------ values helpers
    def boolv(self, b):
        if isinstance(b, bool):
            return I(self.boolty, self.bv(1 if b else 0, 8))
        return I(self.boolty, simp(z3.If(b, self.bv(1, 8), self.bv(0, 8))))

    def truth(self, v):
        if not isinstance(v, I):
            self.fail("ub/bool", f"{v} used as a bool")
        return simp(v.e == self.bv(1, v.e.size()))

    def intv(self, n, ty=None):
        ty = ty or self.usize
        return I(ty, self.bv(n, ty.size * 8))

    def tok(self, tyname, name, **info):
        ty = self.prog.T(tyname) if isinstance(tyname, str) else tyname
        t = Tok(ty, name, info, len(self.toks) + 1)
        self.toks.append(t)
        return t

    def consume(self, t, how):
        """ownership event on a linear token"""
        self.ob("own/once", t.used is None, f"{t.name} {how} but it was already {t.used}")
        t.used = how
        self.events.append((how, t.name))
        cb = t.info.get("on_" + how)
        if cb:
            cb(t)

    def give_user(self, v):
        """ownership of everything inside v passes to user code"""
        if isinstance(v, Tok):
            self.consume(v, "given")
        elif isinstance(v, Agg):
            for f in v.fields:
                self.give_user(f)
        elif isinstance(v, Un):
            self.give_user(v.val)
        elif isinstance(v, Garb):
            self.fail("value/garbage", f"user code receives {v}")
        elif isinstance(v, I) and v.ty is not None and self.is_boxptr(v):
            self.take_box(v)
        return v

    def is_boxptr(self, v):
        return v.lv is not None and v.lv.obj.kind == "box"

    def take_box(self, v):
        o = v.lv.obj
        self.ob("own/once", o.live and not o.taken, f"heap box {o.name} used twice")
        o.taken = True
        x = o.val
        if isinstance(x, Tok):
            self.consume(x, "given")

    # ------------------------------------------------------------ discriminants, ops
    def discriminant(self, v, ty, dty):
        c = ty.core
        if isinstance(v, I):
            v = self.convert(v, c)
        if isinstance(v, Agg):
            if c.adt != "enum":
                return I(dty.core, self.bv(0, dty.size * 8))
            d = c.j["variants"][v.variant]["discr"]
            w = dty.core.size * 8
            return I(dty.core, self.bv(d & ((1 << w) - 1), w))
        self.fail("ub/discriminant", f"discriminant of {v}")

    def binop(self, op, a, b, ty, aty, bty):
        if op == "Offset":
            to = aty.to
            n = b.e
            e = simp(a.e + n * self.size_of(to))
            if const_of(n) == 0:
                return a
            if a.lv is not None and a.lv.path and a.lv.path[-1][0] == 0 and const_of(n) is not None:
                pass
            return I(aty.core, e, None, a.meta)
        if not isinstance(a, I) or not isinstance(b, I):
            if op in ("Eq", "Ne") and isinstance(a, Agg) and isinstance(b, Agg):
                return self.boolv((a.variant == b.variant) == (op == "Eq"))
            self.fail("ub/arith", f"{op} on {a}, {b}")
        x, y = a.e, b.e
        signed = aty.core.signed
        rty = aty.core
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            self.separate(x, y)
            c = {"Eq": lambda: x == y, "Ne": lambda: x != y,
                 "Lt": lambda: x < y if signed else z3.ULT(x, y),
                 "Le": lambda: x <= y if signed else z3.ULE(x, y),
                 "Gt": lambda: x > y if signed else z3.UGT(x, y),
                 "Ge": lambda: x >= y if signed else z3.UGE(x, y)}[op]()
            if a.meta and b.meta and op in ("Eq", "Ne") and a.meta != b.meta:
                raise Unsupported("comparison of wide pointers")
            return self.boolv(simp(c))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Shl", "Shr"):
            w = x.size()
            if y.size() < w:
                y = z3.ZeroExt(w - y.size(), y)
            elif y.size() > w:
                y = z3.Extract(w - 1, 0, y)
            y = y & self.bv(w - 1, w)
            r = x << y if base == "Shl" else ((x >> y) if signed else z3.LShR(x, y))
            return I(rty, simp(r))
        w = x.size()
        if base in ("Add", "Sub", "Mul"):
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y}[base]
            if op.endswith("WithOverflow") or op.endswith("Unchecked"):
                if signed:
                    ex = (lambda t: z3.SignExt(w, t))
                else:
                    ex = (lambda t: z3.ZeroExt(w, t))
                full = {"Add": ex(x) + ex(y), "Sub": ex(x) - ex(y), "Mul": ex(x) * ex(y)}[base]
                if base == "Add" and not signed:
                    ov = z3.ULT(x + y, x)
                elif base == "Sub" and not signed:
                    ov = z3.ULT(x, y)
                else:
                    ov = full != ex(r)
                if op.endswith("Unchecked"):
                    self.ob("ub/unchecked-arith", z3.Not(ov), f"{op} overflows")
                    return I(rty, simp(r))
                tup = ty.core
                return Agg(tup, 0, [I(rty, simp(r)), self.boolv(simp(ov))])
            return I(rty, simp(r), code=None)
        if base in ("BitAnd", "BitOr", "BitXor"):
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[base]
            return I(rty, simp(r))
        if base in ("Div", "Rem"):
            if signed:
                r = x / y if base == "Div" else z3.SRem(x, y)
            else:
                # unsigned division by a power of two constant becomes shifts/masks
                yc = const_of(y)
                if yc and yc & (yc - 1) == 0:
                    r = z3.LShR(x, self.bv(yc.bit_length() - 1, w)) if base == "Div" else x & self.bv(yc - 1, w)
                elif base == "Rem" and self.solver.proves(z3.And(y != 0, y & (y - 1) == 0)) == "yes":
                    r = x & (y - 1)
                else:
                    r = z3.UDiv(x, y) if base == "Div" else z3.URem(x, y)
            return I(rty, simp(r))
        raise Unsupported(f"binop {op}")

    def unop(self, op, a, ty):
        if op == "PtrMetadata":
            if isinstance(a, I) and a.meta and a.meta[0] == "len":
                return I(self.usize, a.meta[1])
            if isinstance(a, I) and a.meta:
                return Tok(ty.core, "vtable", {"vt": a.meta})
            return self.unit_of(ty)
        if not isinstance(a, I):
            self.fail("ub/arith", f"{op} on {a}")
        if op == "Not":
            if a.ty is not None and a.ty.core.kind == "bool":
                return self.boolv(simp(a.e == self.bv(0, a.e.size())))
            return I(a.ty, simp(~a.e))
        if op == "Neg":
            return I(a.ty, simp(-a.e))
        raise Unsupported(f"unop {op}")

    def cast(self, ck, v, fty, ty):
        c = ty.core
        if ck.startswith("PointerCoercion"):
            if "ReifyFnPointer" in ck or "ClosureFnPointer" in ck:
                return self.fn_ptr(v, fty, ty)
            if "Unsize" in ck:
                fto, to = fty.to, ty.to
                while fto is None and fty.kind == "adt":
                    fty = fty.fields()[0]
                    ty = ty.fields()[0]
                    fto, to = fty.to, ty.to
                if to is None:
                    to = ty.core.to
                    fto = fty.core.to
                if to.kind == "slice":
                    meta = ("len", self.bv(fto.j["len"]))
                elif to.kind == "dyn":
                    meta = v.meta or ("vt", canon(fto.str))
                else:
                    raise Unsupported(f"unsize {fty.str} -> {ty.str}")
                return I(c, v._e, v.lv, meta, v.code, v.mk)
            if not isinstance(v, I):
                raise Unsupported(f"pointer coercion of {v}")
            return v.retype(c)
        if ck in ("PtrToPtr", "FnPtrToPtr", "PointerExposeProvenance", "PointerWithExposedProvenance", "BoxDerefTransmute", "Subtype"):
            if not isinstance(v, I):
                self.fail("ub/ptr", f"pointer cast of {v}")
            m = v.meta
            if c.kind == "int" or (c.to is not None and not c.to.unsized):
                m = None
            r = I(c, v._e, v.lv, m, v.code, v.mk)
            if c.kind == "int" and c.size * 8 < self.W:
                r = I(c, simp(z3.Extract(c.size * 8 - 1, 0, v.e)))
            return r
        if ck == "IntToInt":
            if not isinstance(v, I):
                if isinstance(v, Agg):      # enum discriminant cast
                    v = self.discriminant(v, fty, ty)
                    return v
                self.fail("ub/int", f"integer cast of {v}")
            w0, w1 = v.e.size(), c.size * 8
            if w0 == w1:
                return v.retype(c)
            if w1 < w0:
                return I(c, simp(z3.Extract(w1 - 1, 0, v.e)))
            return I(c, simp((z3.SignExt if fty.core.signed else z3.ZeroExt)(w1 - w0, v.e)))
        if ck == "Transmute":
            return self.transmute(v, fty, ty)
        raise Unsupported(f"cast {ck}")

    def transmute(self, v, fty, ty):
        if fty.key == ty.key or isinstance(v, (Uninit,)):
            return v if fty.key == ty.key else Uninit(ty.core)
        fs, ts = fty.size, ty.size
        if fs is not None and ts is not None and fs != ts:
            self.fail("ub/transmute", f"{fty.str} to {ty.str}")
        if fs is None or ts is None:
            self.ob("ub/transmute", self.size_of(fty) == self.size_of(ty), f"{fty.str} to {ty.str}")
        if isinstance(v, I) and ty.is_scalar:
            return I(ty.core, v._e, v.lv, v.meta, v.code, v.mk)
        return self.convert(v, ty)

    # ------------------------------------------------------------ constants
    def const(self, c):
        ty = self.prog.ty(c["ty"])
        k = c.get("k")
        if k == "fn":
            return FnItem(ty, c["callee"])
        if k == "zst":
            return self.unit_of(ty)
        if k == "scalar":
            v = c["v"]
            if v["k"] == "int":
                x = I(self.usize, self.bv(v["v"], v["size"] * 8))
                if ty.is_scalar:
                    return x.retype(ty.core)
                e = x.e
                if e.size() < self.W:
                    e = simp(z3.ZeroExt(self.W - e.size(), e))
                return self.from_word(I(self.usize, e), ty.core)
            return self.const_ptr(v["alloc"], v["off"], ty)
        if k == "slice":
            p = self.const_ptr(c["alloc"], 0, ty)
            return I(ty.core, p._e, p.lv, ("len", self.bv(c["len"])), None, p.mk)
        if k == "uneval":
            return self.eval_const(c["id"], ty)
        if k == "indirect":
            return self.const_mem(c["alloc"], c["off"], ty)
        raise Unsupported(f"constant {c.get('k')} {c.get('s', '')}")

    def const_mem(self, alloc, off, ty):
        a = self.prog.allocs[alloc]
        if a["k" if "k" in a else "kind"] != "mem":
            raise Unsupported("indirect constant")
        rel = {o: t for o, t in a["rel"]}
        raw = bytes.fromhex(a["bytes"])

        def dec(ty, off):
            c = ty.core
            if c.zst:
                return self.unit_of(c)
            if off in rel and c.is_scalar:
                o = int.from_bytes(raw[off:off + self.pb], "little")
                p = self.const_ptr(rel[off], o, c)
                if c.to is not None and c.to.unsized and c.to.kind in ("slice", "str"):
                    n = int.from_bytes(raw[off + self.pb:off + 2 * self.pb], "little")
                    return I(c, p._e, p.lv, ("len", self.bv(n)), None, p.mk)
                return p
            if c.is_scalar:
                return I(c, self.bv(int.from_bytes(raw[off:off + c.size], "little"), c.size * 8))
            if c.adt == "enum":
                if c.size <= self.pb and not rel:
                    e = self.bv(int.from_bytes(raw[off:off + c.size], "little"))
                    return self.from_word(I(self.usize, e), c)
                return Tok(c, "const")
            if c.kind in ("adt", "tuple", "array") and c.adt != "union":
                return Agg(c, 0, [dec(f, off + (const_of(self.offset_of(c, 0, i)))) for i, f in enumerate(c.fields())])
            return Tok(c, "const")
        return dec(ty, off)

    def const_ptr(self, alloc, off, ty):
        a = self.prog.allocs[alloc]
        kind = a["kind"]
        if kind == "fn":
            return self.code_fn(self.prog.insts[a["inst"]], ty.core)
        if kind == "static":
            if a["foreign"]:
                c = self.code_sym(a["symbol"], ty.core)
                if c is not None:
                    return c
            o = self.static_obj(alloc, a)
            return I(ty.core, None, LV(o, (), o.ty), None, mk=self.lv_addr)
        k = ("alloc", alloc)
        if k not in self.symobj:
            to = ty.to or ty.core.to
            o = self.newobj(f"const{alloc}", to if to is not None and not to.unsized else self.usize, Garb(to, "constant"), "const")
            o.const = True
            if kind == "mem" and to is not None and not to.unsized:
                try:
                    o.val = self.const_mem(alloc, off, to)
                except (Unsupported, KeyError, ValueError, TypeError):
                    pass
            self.symobj[k] = o
        o = self.symobj[k]
        return I(ty.core, None, LV(o, (), o.ty), None, mk=self.lv_addr)

    def static_obj(self, alloc, a):
        """a static variable of the crate: it has kept its initial value, or holds another value
        that its invariant allows (checked at the end of the path)"""
        k = ("static", alloc)
        if k in self.symobj:
            return self.symobj[k]
        to = self.prog.ty(a["ty"])
        leaf, n = to, 0
        while leaf.kind == "adt" and leaf.adt == "struct" and n < 8:
            fs = [f for f in leaf.fields() if not f.zst]
            if len(fs) != 1:
                break
            leaf, n = fs[0], n + 1
        if a["foreign"] or a.get("thread_local") or a.get("init") is None or leaf.size != self.pb or leaf.kind not in ("uint", "int"):
            raise Unsupported(f"static {a['path']}")
        v0 = self.bv(int(a["init"]))
        vals = [v0] + [v for v in self.static_values(a["path"]) if not z3.eq(v, v0)]
        v = vals[self.choose(range(len(vals)), f"static {a['path']}")]
        def wrap(t):
            if t is leaf or t.key == leaf.key:
                return I(t.core, v)
            return Agg(t, 0, [wrap(f) if not f.zst else self.unit_of(f) for f in t.fields()])
        o = self.newobj(a["path"].split("::")[-1], to, wrap(to), "static")
        o.seg = None
        self.symobj[k] = o
        self.statics.append((o, a["path"], vals))
        return o

    def check_statics(self):
        for o, path, vals in self.statics:
            v = o.val
            while isinstance(v, Agg):
                v = next(f for f in v.fields if isinstance(f, (Agg, I)) and not f.ty.zst)
            self.ob("static/invariant", z3.Or([v.e == x for x in vals]) if isinstance(v, I) else False, f"{path} holds an unexpected value")

    def static_values(self, path):
        return []

    def eval_const(self, cid, ty):
        memo = self.__dict__.setdefault("constmemo", {})
        if cid in memo:
            return memo[cid]
        c = self.prog.consts[cid]
        body = c.get("body")
        if body is None:
            raise Unsupported(f"associated constant {c['path']}")
        save = self.cur
        self.cur = Seg("const", None, None)
        out = []
        self.push(CbFrame(lambda v: out.append(v)))
        f = MIRFrame(self, None, body, c["path"], [])
        self.push(f)
        while not out:
            self.cur.frames[-1].step(self)
        # constants live forever
        for o in self.cur.objs:
            o.live = True
            o.const = True
        self.cur = save
        memo[cid] = out[0]
        return out[0]

    def min_stack(self):
        """the crate's own MIN_STACK_SIZE"""
        if self.minstk is None:
            inst = self.prog.insts[self.prog.api["__verif_roots::min_stack_size"]["id"]]
            save = self.cur
            self.cur = Seg("const", None, None)
            out = []
            self.push(CbFrame(lambda v: out.append(v)))
            self.push(MIRFrame(self, None, inst.body, "min_stack_size", []))
            while not out:
                self.cur.frames[-1].step(self)
            self.cur = save
            v = z3.simplify(out[0].e)
            if not z3.is_bv_value(v):
                raise Unsupported("MIN_STACK_SIZE is not a number")
            self.minstk = v.as_long()
        return self.minstk

    minstk = None

    # ------------------------------------------------------------ calls
    def push(self, f):
        self.cur.frames.append(f)

    def pop(self):
        f = self.cur.frames.pop()
        f.kill(self)
        return f

    def ret(self, v):
        if self.cur.frames:
            self.cur.frames[-1].on_result(self, v)
        else:
            self.seg_return(v)

    def enter(self, inst, args):
        self.rec.fns.add(inst.path)
        if inst.body is None:
            raise Unsupported(f"no body for {inst.path}")
        self.push(MIRFrame(self, inst, inst.body, inst.name, list(args)))

    def call_callee(self, cal, args, atys, dty):
        k = cal["kind"]
        name = strip_generics(cal["path"])
        targs = [self.prog.ty(a) if isinstance(a, int) else a for a in cal.get("args", [])]
        if k == "intrinsic":
            return self.intrinsic(cal["name"], args, atys, targs, dty)
        if k == "inst":
            inst = self.prog.insts[cal["id"]]
            if self.builtin(name, inst, args, atys, targs, dty):
                return
            if inst.body is None:
                return self.opaque(name, inst, args, atys, targs, dty)
            return self.enter(inst, args)
        if k == "ctor":
            c = dty.core
            sf = dty.strip_field()
            vi = 0
            if c.kind == "adt" and c.adt == "enum":
                nm = cal["path"].split("::")[-1]
                vi = [v["name"] for v in c.j["variants"]].index(nm)
            if dty.strip_field() is not None:
                return self.ret(args[sf])
            return self.ret(Agg(c, vi, args))
        if k == "dropglue" or (k == "unresolved" and name.endswith("drop_glue")):
            p = args[0]
            to = atys[0].to
            lv = self.deref(p, to)
            self.push(DropFrame([(lv, to)]))
            return
        if k == "unresolved":
            return self.unresolved(name, cal, args, atys, targs, dty)
        if k == "virtual":
            return self.virtual(cal, args, atys, targs, dty)
        if k == "fnptrshim":
            return self.call_value(args[0], list(args[1].fields) if isinstance(args[1], Agg) else args[1:])
        raise Unsupported(f"call kind {k} {name}")

    def call_value(self, fv, args):
        if isinstance(fv, FnItem):
            cal = fv.callee
            if cal is None:
                raise Unsupported("call of anonymous fn item")
            if cal["kind"] == "inst":
                inst = self.prog.insts[cal["id"]]
                if inst.body is not None:
                    return self.enter(inst, args)
            return self.call_callee(cal, args, [a.ty for a in args], None)
        if isinstance(fv, I):
            c = self.code_target(fv)
            if c is not None and c[0] == "fn":
                return self.enter(c[1], args)
        self.fail("ub/call", f"call through {fv}, which is not a known function")

    def invoke(self, fv, fty, args):
        """FnOnce::call_once on a value of (declared) type fty"""
        c = fty.core
        if isinstance(fv, Tok):
            prog = fv.info.get("prog")
            if prog is None:
                self.fail("ub/call", f"call of {fv}")
            self.consume(fv, "called")
            for a in args:
                if isinstance(a, I) and a.ty is not None and a.ty.kind in ("ref", "ptr"):
                    continue
                self.give_user(a)
            cb = self.hooks.get("invoke")
            if cb:
                cb(self, fv)
            self.push(EnvFrame(prog(self, *args), fv.name))
            self.cur.owner = fv.info.get("owner", self.cur.owner)
            self.cur.tokfn = fv
            return
        if c.kind == "closure":
            inst = self.prog.insts[c.j["body"]]
            kind = c.j["closure_kind"]
            if kind == "FnOnce":
                return self.enter(inst, [fv] + list(args))
            o = self.newobj("closure", c, fv)
            body_self = self.prog.ty(inst.body["locals"][1])
            fr = CbFrame(lambda v: self.ret(v))
            self.push(fr)
            return self.enter(inst, [I(body_self.core, None, LV(o, (), c), None, mk=self.lv_addr)] + list(args))
        if c.kind == "fndef" or isinstance(fv, (FnItem, I)):
            if isinstance(fv, FnItem) and fv.callee is None:
                raise Unsupported("fn item")
            return self.call_value(fv, list(args))
        if isinstance(fv, Garb) or isinstance(fv, Uninit):
            self.fail("ub/call", f"call of {fv}")
        raise Unsupported(f"invoke {fty.str}")

    # ------------------------------------------------------------ drop
    def drop_one(self, fr, lv, ty):
        """one step of drop glue; may push frames / start a panic"""
        if ty.zst and not ty.j.get("needs_drop", True):
            return
        if ty.j.get("needs_drop") is False:
            return
        c = ty
        if ty.is_adt and ty.j.get("is_manually_drop"):
            return
        if ty.path and ty.path.endswith("maybe_uninit::MaybeUninit"):
            return
        if ty.kind in ("ref", "ptr", "int", "bool", "fndef", "fnptr", "never", "str", "char"):
            return
        v = self.read(lv, ty)
        if isinstance(v, (Uninit, Garb)):
            self.fail("own/drop-invalid", f"drop of {v} ({ty.str})")
        if ty.is_box:
            return self.drop_box(fr, v, ty)
        if isinstance(v, Tok):
            if ty.kind == "param" or ty.kind == "alias" or "drop_impl" not in ty.j:
                self.consume(v, "dropped")
                if v.info.get("drop_panics"):
                    self.unwind(v.info["drop_panics"](self))
                return
        items = []
        di = ty.j.get("drop_impl")
        if ty.kind == "adt":
            if ty.adt == "union":
                items = []
            elif isinstance(v, Agg) or ty.adt == "struct":
                variant = v.variant if isinstance(v, Agg) and ty.strip_field() is None else 0
                for i, f in enumerate(ty.fields(variant)):
                    if f.j.get("needs_drop", True):
                        items.append((self.field(lv, ty, variant, i, f), f))
        elif ty.kind in ("tuple", "closure"):
            for i, f in enumerate(ty.fields()):
                if f.j.get("needs_drop", True):
                    items.append((self.field(lv, ty, 0, i, f), f))
        elif ty.kind == "array":
            for i, f in enumerate(ty.fields()):
                items.append((self.index(lv, ty, i, f), f))
        elif ty.kind == "dyn":
            raise Unsupported("drop of unsized place")
        if di is not None:
            inst = self.prog.insts[di]
            rty = self.prog.ty(inst.body["locals"][1]) if inst.body else None
            fr.items = items + fr.items
            if inst.body is None:
                raise Unsupported(f"drop impl {inst.path}")
            if isinstance(lv, ZLV):
                p = I(rty.core, self.bv(8))
            else:
                p = self.addr_of(lv, ty, rty.core)
            self.enter(inst, [p])
            return
        fr.items = items + fr.items

    def drop_box(self, fr, v, ty):
        if not isinstance(v, I) or not self.is_boxptr(v):
            self.fail("own/drop-invalid", f"drop of box {v}")
        o = v.lv.obj
        self.ob("own/once", o.live and not o.taken, f"heap box {o.name} dropped twice")

        def free():
            o.live = False
        fr.free.append(free)
        fr.items.insert(0, (LV(o, (), o.ty), o.ty))

    # ------------------------------------------------------------ panics
    def payload(self, name, **info):
        """a fresh user panic payload: Box<dyn Any + Send>"""
        ty = Ty(self.prog, -10, {"str": f"payload:{name}", "kind": "param", "name": name, "needs_drop": True})
        t = Tok(ty, name, info, len(self.toks) + 1)
        self.toks.append(t)
        o = self.newobj("payload:" + name, ty, t, "box")
        self.boxes.append(o)
        return I(None, None, LV(o, (), ty), ("vt", "user:" + name), mk=self.lv_addr)

    def lib_panic(self, msg):
        self.events.append(("libpanic", msg))
        self.unwind(self.payload("library panic: " + msg, lib=msg))

    def unwind(self, payload):
        self.tick()
        while True:
            if not self.cur.frames:
                return self.seg_unwind(payload)
            f = self.cur.frames[-1]
            n = len(self.cur.frames)
            if f.on_unwind(self, payload):
                return
            # an EnvFrame pops itself when it re-raises
            if self.cur.frames and self.cur.frames[-1] is f and len(self.cur.frames) == n:
                self.pop()
            else:
                return

    # ------------------------------------------------------------ environment ops
    def do_op(self, env, op):
        op(self, env)

    def run(self):
        while not self.done:
            self.tick()
            self.cur.frames[-1].step(self)

    def observe(self, env):
        cb = self.hooks.get("observe")
        if cb and self.cur.kind == "asmfn":
            cb(self, env)


def _keep(e):
    from . import core
    core._KEEP.append(e)
