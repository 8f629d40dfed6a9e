"""Values, memory, solver interface and path exploration."""
import hashlib
import os
import subprocess
import time
import z3

SOLVER_TIMEOUT = int(os.environ.get("VC_TIMEOUT_MS", "20000"))
CROSS = bool(os.environ.get("VC_CROSS"))


def cvc5_check(cs):
    """second back end: the same query, by cvc5"""
    p = z3.Solver()
    for c in cs:
        p.add(c)
    txt = "(set-logic QF_BV)\n" + p.to_smt2()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={SOLVER_TIMEOUT}"], input=txt, capture_output=True, text=True, timeout=SOLVER_TIMEOUT / 1000 + 10)
    except (OSError, subprocess.TimeoutExpired):
        return "unknown"
    out = r.stdout.strip().splitlines()
    return out[0] if out and out[0] in ("sat", "unsat") else "unknown"


class PathEnd(Exception):
    """The current path is finished (normally or because an obligation failed)."""


class Unsupported(Exception):
    pass


class PanicEx(Exception):
    """An unwinding panic as seen by environment (user) code."""

    def __init__(self, payload):
        self.payload = payload


# ---------------------------------------------------------------- values
class Val:
    __slots__ = ("ty",)


class I(Val):
    """Scalar: integer, bool (8 bits), char or pointer.

    e: z3 bit-vector (lazily computed from lv); lv: the place a pointer designates;
    meta: ("len", n) / ("vt", type string) for wide pointers; code: code label."""
    __slots__ = ("_e", "lv", "meta", "code", "mk")

    def __init__(self, ty, e=None, lv=None, meta=None, code=None, mk=None):
        self.ty, self._e, self.lv, self.meta, self.code, self.mk = ty, e, lv, meta, code, mk

    @property
    def e(self):
        if self._e is None:
            self._e = self.mk(self.lv)
        return self._e

    def retype(self, ty):
        if ty is self.ty:
            return self
        return I(ty, self._e, self.lv, self.meta, self.code, self.mk)

    def __repr__(self):
        if self.code is not None:
            return f"code:{self.code}"
        if self.lv is not None:
            return f"&{self.lv}"
        return str(self._e)


class Agg(Val):
    __slots__ = ("variant", "fields")

    def __init__(self, ty, variant, fields):
        self.ty, self.variant, self.fields = ty, variant, tuple(fields)

    def __repr__(self):
        return f"{self.ty.str.split('<')[0].split('::')[-1] if self.ty else ''}#{self.variant}{list(self.fields)}"


class FnItem(Val):
    __slots__ = ("callee",)

    def __init__(self, ty, callee):
        self.ty, self.callee = ty, callee


class Un(Val):
    """Union value: active field and its value."""
    __slots__ = ("active", "val")

    def __init__(self, ty, active, val):
        self.ty, self.active, self.val = ty, active, val

    def __repr__(self):
        return f"union{{{self.active}:{self.val}}}"


class Tok(Val):
    """Opaque linear value of a generic (or opaque) type."""
    __slots__ = ("name", "info", "used", "id")

    def __init__(self, ty, name, info=None, id=0):
        self.ty, self.name, self.info, self.used, self.id = ty, name, info or {}, None, id

    def __repr__(self):
        return f"«{self.name}»"


class Uninit(Val):
    __slots__ = ()

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return "uninit"


class Garb(Val):
    """Bits that are not a valid value of the type."""
    __slots__ = ("why",)

    def __init__(self, ty, why):
        self.ty, self.why = ty, why

    def __repr__(self):
        return f"garbage({self.why})"


# ---------------------------------------------------------------- places
class Obj:
    __slots__ = ("id", "name", "ty", "val", "live", "seg", "kind", "taken", "_sym", "const")

    def __init__(self, id, name, ty, val, kind="local", seg=None):
        self.id, self.name, self.ty, self.val, self.kind, self.seg = id, name, ty, val, kind, seg
        self.live = True
        self.taken = False
        self._sym = None
        self.const = False

    def __repr__(self):
        return f"{self.name}@{self.id}"


class LV:
    __slots__ = ("obj", "path", "ty")

    def __init__(self, obj, path, ty):
        self.obj, self.path, self.ty = obj, path, ty

    def __repr__(self):
        return f"{self.obj}{''.join('.%s' % (p[1],) for p in self.path)}"


class RLV:
    """A place inside a stack region."""
    __slots__ = ("region", "addr", "ty")

    def __init__(self, region, addr, ty):
        self.region, self.addr, self.ty = region, addr, ty

    def __repr__(self):
        return f"[{self.addr}]"


class ZLV:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Region:
    def __init__(self, name, lo, hi, kind):
        self.name, self.lo, self.hi, self.kind = name, lo, hi, kind
        self.log = []
        self.live = True
        self.init = {}
        self.zombies = []
        self.limit = None
        self.nwrites = 0
        self.reserve = 1536
        self.room = 1024

    def __repr__(self):
        return f"region:{self.name}"


# ---------------------------------------------------------------- recorder
class Recorder:
    """Collects obligations over all paths of a scenario."""

    def __init__(self):
        self.obs = {}        # name -> [discharged, failed, undecided]
        self.failures = []   # dicts
        self.backend = {"simplify": 0, "z3": 0, "cvc5": 0, "cached": 0, "structural": 0}
        self.time = 0.0
        self.queries = 0
        self.covers = {}
        self.fns = set()
        self.asm = set()
        self.unsupported = []
        self.paths = 0
        self.steps = 0
        self.trusted = set()
        self.others = ()     # prefixes of obligations that belong to other properties only

    def soft(self, name):
        return name.startswith(self.others) if self.others else False

    def ob(self, name, status, detail=None):
        o = self.obs.setdefault(name, [0, 0, 0])
        o[{"ok": 0, "fail": 1, "unknown": 2}[status]] += 1
        if status != "ok" and len(self.failures) < 40:
            self.failures.append({"obligation": name, "status": status, "detail": detail})


SHARED = None
_KEEP = []
_CACHE = {}
NO_ORDER = bool(os.environ.get("VC_NO_ORDER"))
_VARS = {}
_SIMP = {}
_WIDTH = {}


def vars_of(e):
    k = e.get_id()
    r = _VARS.get(k)
    if r is not None:
        return r
    if z3.is_const(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([e.decl().name()])
            _WIDTH[e.decl().name()] = str(e.sort())
        else:
            r = frozenset()
    else:
        r = frozenset().union(*[vars_of(c) for c in e.children()]) if e.num_args() else frozenset()
    _KEEP.append(e)
    _VARS[k] = r
    return r


def simp(e):
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        r = z3.simplify(e)
        _KEEP.append(e)
        _KEEP.append(r)
        _SIMP[k] = r
        _SIMP[r.get_id()] = r
    return r


_TACTIC = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "smt")
_TOKS = {}
_VAR_RE = None


def _toks(e):
    """s-expression of e split into text and variables"""
    import re
    k = e.get_id()
    r = _TOKS.get(k)
    if r is None:
        vs = sorted(vars_of(e), key=len, reverse=True)
        txt = e.sexpr()
        if vs:
            pat = re.compile("(?<![^\\s()])(" + "|".join(re.escape("|" + v + "|") + "|" + re.escape(v) for v in vs) + ")(?![^\\s()])")
            r, pos = [], 0
            for mm in pat.finditer(txt):
                r.append(txt[pos:mm.start()])
                v = mm.group(1).strip("|")
                r.append(("v", v))
                pos = mm.end()
            r.append(txt[pos:])
        else:
            r = [txt]
        _TOKS[k] = r
        _KEEP.append(e)
    return r


_SPLIT = {}
LIM = 1 << 15


def split(e):
    """e as (id of a term, constant)"""
    e = simp(e)
    k = e.get_id()
    r = _SPLIT.get(k)
    if r is None:
        n = e.size()
        if z3.is_bv_value(e):
            r = (None, 0)
        elif z3.is_app_of(e, z3.Z3_OP_BADD) and z3.is_bv_value(e.arg(0)):
            c = e.arg(0).as_long()
            b = simp(e - e.arg(0))
            _KEEP.append(b)
            r = (b.get_id(), c - (1 << n) if c >> (n - 1) else c)
        else:
            r = (k, 0)
        _SPLIT[k] = r
    return r


def _const(e):
    e = simp(e)
    return e.as_long() if z3.is_bv_value(e) else None


class Order:
    """What the solver has proved about the order of addresses in one stack region on this path.
    A term X is known here when some X + k is known to lie in the region; with x standing for that
    address minus k as an integer, X + k2 does not wrap for |k2 - k| < LIM, since regions stay 64 KiB away
    from both ends of the address space.  g[x][y] is the greatest known lower bound of x - y."""

    def __init__(self, lo, hi):
        self.lo, self.hi = split(lo), split(hi)
        self.k0 = {self.lo[0]: self.lo[1], self.hi[0]: self.hi[1]}
        self.g = {}
        self.tight = set()
        self.up = True

    def near(self, p):
        return p[0] in self.k0 and abs(p[1] - self.k0[p[0]]) < LIM

    def known(self, p, q):
        """p >= q"""
        if not (self.near(p) and self.near(q)):
            return False
        if p[0] == q[0]:
            return p[1] >= q[1]
        g = self.g.get(p[0], {}).get(q[0])
        return g is not None and g >= q[1] - p[1]

    def learn(self, p, q):
        """p >= q holds, and both are near"""
        if p[0] is None or q[0] is None or not (self.near(p) and self.near(q)) or self.known(p, q):
            return
        x, y, d = p[0], q[0], q[1] - p[1]
        if x == y:
            return
        G = self.g
        above = [(x, 0)] + [(a, m[x]) for a, m in G.items() if x in m]
        below = [(y, 0)] + list(G.get(y, {}).items())
        for a, u in above:
            m = G.setdefault(a, {})
            for b, v in below:
                if a != b and (b not in m or m[b] < u + d + v):
                    m[b] = u + d + v

    def inside(self, p):
        """p lies in the region"""
        if p[0] is not None and p[0] not in self.k0:
            self.k0[p[0]] = p[1]


class Solver:
    """Path condition plus cached, sliced queries."""

    def __init__(self, rec):
        self.rec = rec
        self.pc = []          # list of z3 Bool
        self.pv = []          # the same with variables and ids
        self.pcset = set()
        self.dump = None
        self.orders = {}

    def order(self, r):
        """facts about region r, if it keeps its distance from the ends of the address space"""
        o = self.orders.get(id(r))
        if o is None and getattr(r, "anchored", False) and not NO_ORDER:
            o = self.orders[id(r)] = Order(r.lo, r.hi)
            o.region = r
        return o

    def inside(self, r, addr, size, step):
        """is [addr, addr + size) known to lie in region r? None: ask the solver"""
        o, n = self.order(r), _const(size)
        if o is None or n is None or n >= LIM:
            return False
        p = split(addr)
        if p[0] is None:
            return False
        e = (p[0], p[1] + n)
        if o.known(p, o.lo) and o.known(o.hi, e):
            self.rec.backend["order"] = self.rec.backend.get("order", 0) + 1
            return True
        # the frames of this library are written word by word downwards: ask for some words at once
        if p[0] not in o.tight:
            a = addr - step
            if self.proves(z3.And(z3.UGE(a, r.lo), z3.ULE(a, r.hi), z3.ULE(size + step, r.hi - a))) == "yes":
                self.known_inside(r, a, size + step)
                return True
            o.tight.add(p[0])
        return False

    def known_inside(self, r, addr, size):
        """records that [addr, addr + size) lies in region r"""
        o, n = self.order(r), _const(size)
        if o is None:
            return
        p = split(addr)
        o.inside(p)
        o.learn(p, o.lo)
        if n is not None and n < LIM:
            o.learn(o.hi, (p[0], p[1] + n))
        else:
            o.learn(o.hi, p)
            e = split(addr + size)
            o.inside(e)
            o.learn(o.hi, e)
            o.learn(e, p)

    def disjoint(self, r, addr, end, lo, hi):
        """[addr, end) and [lo, hi), both in region r, do not overlap: yes/no/unknown"""
        o = self.order(r)
        if o is None:
            return self.proves(z3.Or(z3.UGE(addr, hi), z3.ULE(end, lo)))
        pa, pe, pl, ph = split(addr), split(end), split(lo), split(hi)
        if o.known(pa, ph) or o.known(pl, pe):
            self.rec.backend["order"] = self.rec.backend.get("order", 0) + 1
            return "yes"
        for up in (o.up, not o.up):
            if self.proves(z3.UGE(addr, hi) if up else z3.ULE(end, lo)) == "yes":
                o.up = up
                o.learn(*((pa, ph) if up else (pl, pe)))
                return "yes"
        return self.proves(z3.Or(z3.UGE(addr, hi), z3.ULE(end, lo)))

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd("infeasible")
            return
        c = simp(c)
        if z3.is_true(c):
            return
        if c.get_id() in self.pcset:
            return
        _KEEP.append(c)
        k = c.get_id()
        self.pcset.add(k)
        self.pc.append(c)
        self.pv.append((c, vars_of(c), k))

    def slice(self, q):
        vs = set(vars_of(q))
        todo = self.pv
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c in todo:
                cv = c[1]
                if not cv or not vs.isdisjoint(cv):
                    out.append(c)
                    if not cv <= vs:
                        vs |= cv
                        changed = True
                else:
                    rest.append(c)
            todo = rest
        return out

    def _key(self, q, sl):
        """query text up to renaming of variables"""
        names = {}
        out = []
        for e in [q] + sl:
            t = _toks(e)
            out.append("".join(names.setdefault(x[1], f"v{len(names)}:{_WIDTH[x[1]]}") if type(x) is tuple else x for x in t))
        return "\n".join(out)

    def _run(self, q, sl):
        key = self._key(q, sl)
        r = _CACHE.get(key)
        if r is not None:
            self.rec.backend["cached"] += 1
            return r
        path = None
        if SHARED:
            # answers of this run's other workers to the same query
            path = os.path.join(SHARED, hashlib.sha1(key.encode()).hexdigest())
            try:
                with open(path) as f:
                    r = f.read()
                if r in ("sat", "unsat"):
                    self.rec.backend["cached"] += 1
                    _CACHE[key] = r
                    return r
            except FileNotFoundError:
                pass
        t = time.time()
        s = _TACTIC.solver()
        s.set("timeout", SOLVER_TIMEOUT)
        for c in sl:
            s.add(c)
        s.add(q)
        r = str(s.check())
        be = "z3"
        if r == "unknown":
            r2 = cvc5_check(sl + [q])
            if r2 != "unknown":
                r, be = r2, "cvc5"
        elif CROSS and r in ("sat", "unsat"):
            # thorough tier: the two solvers have to agree
            r2 = cvc5_check(sl + [q])
            if r2 == r:
                self.rec.backend["cvc5-agrees"] = self.rec.backend.get("cvc5-agrees", 0) + 1
            elif r2 != "unknown":
                self.rec.backend["cvc5-disagrees"] = self.rec.backend.get("cvc5-disagrees", 0) + 1
                r = "unknown"
        dt = time.time() - t
        self.rec.time += dt
        self.rec.queries += 1
        self.rec.backend[be] += 1
        if dt > float(os.environ.get("VC_SLOW", "1e9")):
            print("SLOW", round(dt, 2), r, q, "| slice", len(sl))
        _CACHE[key] = r
        if path and r != "unknown":
            with open(path, "w") as f:
                f.write(r)
        return r

    def check(self, q):
        """sat / unsat / unknown of pc && q"""
        q = simp(q)
        if z3.is_false(q):
            return "unsat"
        sl = self.slice(q)
        k2 = (q.get_id(), frozenset([c[2] for c in sl]))
        r = _CACHE.get(k2)
        if r is not None:
            self.rec.backend["cached"] += 1
            return r
        vs = vars_of(q)
        r = None
        done = 0
        # growing sets of constraints: "unsat" with some of them is final
        for hop in range(3):
            near = [c for c in sl if c[1] <= vs]
            if len(near) == len(sl):
                break
            if len(near) > done:
                done = len(near)
                if self._run(q, [c[0] for c in near]) == "unsat":
                    r = "unsat"
                    break
            more = [c[1] for c in sl if not vs.isdisjoint(c[1])]
            more.sort(key=len)
            vs = vs.union(*more[:len(more)]) if more else vs
        if r is None:
            r = self._run(q, [c[0] for c in sl])
        _KEEP.append(q)
        _CACHE[k2] = r
        return r

    def model_for(self, q):
        s = z3.Solver()
        s.set("timeout", SOLVER_TIMEOUT)
        for c in self.slice(q):
            s.add(c[0])
        s.add(q)
        if s.check() == z3.sat:
            m = s.model()
            return {d.name(): hex(m[d].as_long()) for d in m.decls() if z3.is_bv_value(m[d])}
        return None

    def proves(self, c):
        c = simp(c)
        if z3.is_true(c):
            return "yes"
        if c.get_id() in self.pcset:
            return "yes"
        if z3.is_and(c):
            rs = [self.proves(x) for x in c.children()]
            return "no" if "no" in rs else "unknown" if "unknown" in rs else "yes"
        r = self.check(z3.Not(c))
        return {"unsat": "yes", "sat": "no", "unknown": "unknown"}[r]
