"""The specification: contracts of every public operation, expressed as ghost-state
transitions that environment programs use to drive the verified code."""
import z3
from .core import *
from .engine import Machine, Seg, EnvFrame, const_of
from .mir import canon


class Req:
    def __init__(self, kind, target=None, co=None):
        self.kind, self.target, self.co = kind, target, co

    def __repr__(self):
        return f"req:{self.kind}"


class Ghost:
    link = None


class Co(Ghost):
    """Ghost state of a coroutine."""
    n = 0

    def __init__(self):
        Co.n += 1
        self.id = Co.n
        self.state = "unstarted"
        self.started = False
        self.expect_input = None
        self.out = None
        self.forcing = None
        self.link = None
        self.yielder = None
        self.obj = None
        self.reset = False
        self.norms = []
        self.bodyruns = 0
        self.resumes = 0

    def __repr__(self):
        return f"co{self.id}"


class Spec:
    MAIN_MIN = 1 << 16

    def __init__(self, m, unwind=True, full=False):
        self.m = m
        self.full = full
        self.unwind = unwind
        self.prog = m.prog
        self.cos = []
        self.checked = set()
        self.weak = set()
        self.main_region = self.new_main()
        m.hooks["observe"] = self.observe
        m.hooks["resumed"] = self.resumed
        m.hooks["entered"] = self.entered
        self.observing = True
        self.must_abort = False

    # ------------------------------------------------------------ plumbing
    def new_main(self):
        m = self.m
        r = m.new_region("main", "main", self.MAIN_MIN)
        r.reserve, r.room = 8192, 1024
        r.limit = r.lo
        E = m.sym("mainE")
        m.bind(E, r)
        m.assume(E & m.bv(m.arch.entry_mask) == m.bv(m.arch.entry_want))
        m.assume(z3.ULE(E, r.hi))
        m.assume(z3.UGE(E, r.lo + m.bv(12288)))
        r.mainE = E
        m.teb_init(r, True)
        return r

    def hop(self):
        """the environment continues on another parent stack (another thread, or another
        depth of the same one)"""
        m = self.m
        seg = m.cur
        if seg.kind == "env":
            r = self.new_main()
            seg.region, seg.E = r, r.mainE
            m.teb_load(r)

    def start(self, gen):
        m = self.m
        m.cur = Seg("env", self.main_region, self.main_region.mainE)
        m.teb_load(self.main_region)
        m.panicked = None
        m.result = None
        m.push(EnvFrame(gen, "main"))
        m.run()
        if m.panicked is not None:
            m.fail("spec/unexpected-panic", f"{m.panicked.meta} escapes")
        self.finish()

    def finish(self):
        m = self.m
        for t in m.toks:
            if t.used is None and not t.info.get("weak") and not t.info.get("forgotten_ok"):
                m.ob("own/leak", False, f"{t.name} was never dropped, called or handed over")
        for o in m.boxes:
            if o.live and not o.taken:
                m.ob("own/leak", False, f"heap allocation {o.name} was never freed")
        m.ob("own/leak", True)
        m.cover("end")

    def T(self, s):
        return self.prog.T(s)

    def tok(self, ty, name, **info):
        return self.m.tok(ty, name, **info)

    def op(self, f):
        def g():
            v = yield f
            return v
        return g()

    def api(self, key, args, req=None):
        """call a function of the verified crate"""
        m = self.m
        cal = self.prog.api[key]
        if cal["kind"] == "inst":
            inst = self.prog.insts[cal["id"]]
            if inst.body is None:
                raise Unsupported(f"no body for {key}")
            atys = [self.prog.ty(inst.body["locals"][i]) for i in range(1, inst.body["argc"] + 1)]
            dty = self.prog.ty(inst.body["locals"][0])
        else:
            raise Unsupported(f"api {key}")
        args = [a.retype(t.core) if isinstance(a, I) and a.ty is None else a for a, t in zip(args, atys)]

        def f(m, env):
            env.req = req
            m.call_callee(cal, args, atys, dty)
        v = yield f
        return v

    def drop_obj(self, obj, req=None):
        from .engine import DropFrame

        def f(m, env):
            env.req = req
            m.push(DropFrame([(LV(obj, (), obj.ty), obj.ty)]))
        yield f

    def rettype(self, key):
        inst = self.prog.insts[self.prog.api[key]["id"]]
        return self.prog.ty(inst.body["locals"][0])

    def ref(self, obj):
        return self.m.ref(obj)

    def payload(self, name, **info):
        return self.m.payload(name, **info)

    def panic(self, name):
        """user code panics; without unwinding support the process must abort before control
        leaves the current stack"""
        m = self.m
        p = PanicEx(self.payload(name))
        if not self.unwind and m.cur.kind != "env":
            seg = m.cur

            def aborts(m, why):
                m.ob("abort/before-switch", m.cur is seg, "the process aborts only after control left the panicking stack")
                self.cover("panic-aborts")
            m.expect_abort = aborts
            self.must_abort = True
        return p

    def swallow(self, p):
        """user code catches a panic and drops the payload"""
        m = self.m
        o = p.lv.obj
        m.ob("own/once", o.live and not o.taken, f"panic payload {o.name} delivered after it was consumed")
        o.taken = True
        if isinstance(o.val, Tok):
            m.consume(o.val, "given")

    def same_payload(self, p, q):
        return p.lv is not None and q.lv is not None and p.lv.obj is q.lv.obj

    def cover(self, n):
        self.m.cover(n)

    def choose(self, opts, label):
        return self.m.choose(opts, label)

    # ------------------------------------------------------------ hooks
    def observe(self, m, env):
        seg = m.cur
        if not self.observing or seg.owner is None or seg.owner.link is None or seg.kind != "asmfn":
            return
        key = (id(seg), id(seg.owner.link))
        if key in self.checked:
            return
        self.checked.add(key)
        self._keepalive = getattr(self, "_keepalive", [])
        self._keepalive.append((seg, seg.owner.link))
        m.check_unwind(seg, seg.owner.link)

    def resumed(self, m, act):
        m.ob("abort/before-switch", not self.must_abort, "control switches to another stack after a panic that cannot be propagated")
        rq = act.req
        if rq is None:
            return
        if rq.target is not None:
            m.ob("control/latest-resumer", rq.target.link is act,
                 f"control returned to {rq}, which is not the context that most recently switched to {rq.target}")
            rq.target.link = None
        if rq.kind == "suspend":
            m.ob("control/resumed-coroutine", rq.co.state in ("running", "forced"), f"{rq.co} continues although nobody resumed it")

    def entered(self, m, seg):
        pass

    # ------------------------------------------------------------ stacks
    def new_stack(self, ty="Stk", name="stack", minsize=None):
        m = self.m
        minsize = m.min_stack() if minsize is None else minsize
        r = m.new_region(name, "stack", minsize)
        r.limit = m.sym(name + ".limit")
        m.bind(r.limit, r)
        m.assume(z3.ULE(r.limit, r.lo))
        m.assume(r.limit != 0)
        m.teb_init(r)
        st = self.tok(ty, name + "-value", region=r, teb=dict(r.teb or {}))
        r.tok = st
        r.objs_on = []       # tokens that must be gone before the stack is released

        def dropped(t):
            for f in r.objs_on:
                m.ob("own/stack-last", f.used is not None or f.info.get("forgotten_ok"), f"stack dropped while {f.name} stored on it is still live")
            for s, A in m.frames_on(r):
                m.ob("own/stack-last", False, f"stack dropped while {s} is still suspended on it")
            m.ob("own/stack-last", m.cur.region is not r, "stack dropped while running on it")
            self.remembered(t)
            m.kill_region(r)
        st.info["on_dropped"] = dropped
        return st

    def remembered(self, t):
        """the stack object knows how far the operating system has grown its stack"""
        m = self.m
        r = t.info["region"]
        if r.teb is not None:
            for k, n in (("limit", "stack limit"), ("guar", "guaranteed bytes")):
                m.ob("teb/remembered", t.info["teb"][k] == r.teb[k], f"the {n} of a released stack are not those it had when it last ran")
            self.cover("teb-remembered")

    # ------------------------------------------------------------ coroutine operations
    def new_co(self, body, stack=None, name="f"):
        """returns Co, or None when the closure was refused"""
        m = self.m
        co = Co()
        st = stack or self.new_stack()
        r = st.info["region"]
        f = self.tok("Func", name, prog=lambda m, *a: self.body_prog(co, body, *a), owner=co)
        co.func, co.stack, co.region = f, st, r
        co.retty = self.rettype("Coroutine::with_stack")
        w0 = r.nwrites
        try:
            v = yield from self.api("Coroutine::with_stack", [st, f])
        except PanicEx as p:
            self.swallow(p.payload)
            m.ob("closure/refused-justified", self.too_big("Func"), "with_stack panicked although the closure is within the limits")
            m.ob("closure/refused-dropped-once", f.used == "dropped", f"the refused closure is {f.used}")
            m.ob("own/stack-once", st.used == "dropped", f"the stack of the refused coroutine is {st.used}")
            self.cover("refused")
            return None
        m.ob("closure/stored", f.used is None, f"the closure was {f.used} by with_stack")
        m.ob("own/stack-once", st.used is None, f"the stack was {st.used} by with_stack")
        m.ob("closure/limit-respected", z3.ULE(m.size_of(self.T("Func")), m.bv(1024)), "closures larger than the limit must be refused")
        r.objs_on.append(f)
        co.obj = m.newobj("coroutine", co.retty, v, "heap")
        co.obj.seg = None
        self.cos.append(co)
        co.init_val = v
        yield from self.check_state(co)
        return co

    def too_big(self, ty):
        m = self.m
        T = self.T(ty)
        return z3.Or(z3.UGT(m.size_of(T), m.bv(1024)), z3.UGT(m.align_of(T), m.bv(1024)))

    def move(self, co):
        """coroutines may be moved between operations"""
        m = self.m
        o = co.obj
        n = m.newobj("coroutine", o.ty, o.val, "heap")
        n.seg = None
        o.live = False
        co.obj = n

    def b(self, v):
        """bool result as python bool (branching)"""
        return self.m.decide(self.m.truth(v))

    def check_state(self, co):
        m = self.m
        self.move(co)
        s = yield from self.api("Coroutine::started", [self.ref(co.obj)])
        d = yield from self.api("Coroutine::done", [self.ref(co.obj)])
        want_s = co.state != "unstarted"
        want_d = co.state == "done"
        m.ob("lifecycle/started", m.truth(s) == z3.BoolVal(want_s), f"started() of a coroutine that is {co.state}")
        m.ob("lifecycle/done", m.truth(d) == z3.BoolVal(want_d), f"done() of a coroutine that is {co.state}")

    def resume(self, co, check=True):
        """contract of Coroutine::resume; returns ("yield"|"return", token) or raises PanicEx"""
        m = self.m
        t = self.tok("Input", f"input{co.resumes}")
        co.resumes += 1
        if co.state == "done":
            runs = co.bodyruns
            try:
                yield from self.api("Coroutine::resume", [self.ref(co.obj), t], Req("resume", co))
            except PanicEx as p:
                self.swallow(p.payload)
                m.ob("lifecycle/resume-completed", t.used == "dropped", f"the input of a refused resume is {t.used}")
                m.ob("lifecycle/resume-completed", co.bodyruns == runs and co.link is None)
                yield from self.check_state(co)
                self.cover("resume-completed")
                return ("refused", None)
            m.fail("lifecycle/resume-completed", "resume on a completed coroutine did not panic")
        co.state = "running"
        co.expect_input = t
        co.out = None
        req = Req("resume", co)
        try:
            v = yield from self.api("Coroutine::resume", [self.ref(co.obj), t], req)
        except PanicEx as p:
            m.ob("panic/unexpected", co.out is not None and co.out[0] == "panic", f"resume panicked with {p.payload.lv} although the coroutine {co.out}")
            m.ob("panic/payload", self.same_payload(p.payload, co.out[1]), f"the payload {p.payload.lv} is not the one the coroutine panicked with")
            o = p.payload.lv.obj
            m.ob("own/once", o.live and not o.taken, "panic payload was consumed on the way")
            co.out = None
            self.cover("resume-panicked")
            if check:
                yield from self.check_state(co)
            raise
        m.ob("value/result", isinstance(v, Agg) and len(v.fields) == 1, f"resume returned {v}")
        kind = v.ty.j["variants"][v.variant]["name"]
        m.ob("value/result-kind", co.out is not None and co.out[0] == kind.lower(), f"resume returned {kind} after {co.out}")
        m.ob("value/result", v.fields[0] is co.out[1], f"resume returned {v.fields[0]} but the coroutine passed {co.out[1]}")
        m.consume(v.fields[0], "given")
        co.out = None
        self.cover("resume-" + kind.lower())
        if kind == "Yield":
            self.induct(co)
        if check:
            yield from self.check_state(co)
        return (kind.lower(), v.fields[0])

    def body_prog(self, co, body, *args):
        """what the user's coroutine closure does"""
        m = self.m
        y, inp = args
        co.bodyruns += 1
        m.ob("closure/called-once", co.bodyruns == 1, "the coroutine closure runs twice")
        m.ob("closure/called-when-resumed", co.state == "running", f"the closure runs although the coroutine is {co.state}")
        m.ob("value/input", inp is co.expect_input, f"the coroutine received {inp} instead of {co.expect_input}")
        co.expect_input = None
        m.ob("abi/region", m.cur.region is co.region, f"the closure runs on {m.cur.region}, not on its stack")
        co.yielder = y
        try:
            yield from body(self, co)
        except PanicEx as p:
            co.state = "done"
            co.out = ("panic", p.payload)
            raise
        r = self.tok("Return", "retval")
        co.state = "done"
        co.out = ("return", r)
        return r

    def suspend(self, co):
        """contract of Yielder::suspend, called inside the coroutine"""
        m = self.m
        y = self.tok("Yield", "yielded")
        co.out = ("yield", y)
        co.state = "suspended"
        seg = m.cur
        try:
            v = yield from self.api("Yielder::suspend", [co.yielder, y], Req("suspend", None, co))
        except PanicEx as p:
            m.ob("unwind/forced-only", co.forcing is not None, "suspend panicked without a forced unwind")
            m.ob("control/resumed-coroutine", co.state == "forced" and m.cur is seg, f"suspend unwinds in {m.cur} while {co} is {co.state}")
            co.state = "running"
            co.forced_payload = p.payload
            o = p.payload.lv.obj
            m.ob("own/once", o.live and not o.taken, "forced unwind payload")
            self.cover("suspend-unwound")
            raise
        m.ob("unwind/never-a-value", co.forcing is None, "suspend returned a value during a forced unwind")
        m.ob("control/resumed-coroutine", co.state == "running" and m.cur is seg, f"suspend returned in {m.cur} while {co} is {co.state}")
        m.ob("value/input", v is co.expect_input, f"suspend returned {v} instead of {co.expect_input}")
        co.expect_input = None
        m.consume(v, "given")
        self.cover("suspend-returned")
        return v

    # ------------------------------------------------------------ forced unwinding
    def expect_forced(self, co):
        """prepare ghost state for an operation that may force-unwind co; returns state before"""
        st = co.state
        if st == "suspended" and not self.unwind:
            return "refused"
        if st == "suspended":
            co.state = "forced"
            co.forcing = True
            co.forced_payload = None
            co.out = None
        return st

    def after_forced(self, co, st, payload):
        """check the outcome of force_unwind (payload: panic raised by it or None)"""
        m = self.m
        if st == "done":
            m.ob("unwind/noop", payload is None, "force_unwind of a completed coroutine panicked")
            m.ob("lifecycle/no-run", co.state == "done")
        elif st == "refused":
            m.ob("unwind/refused", payload is not None, "force_unwind of a suspended coroutine did not panic")
            m.ob("unwind/refused-no-run", co.state == "suspended" and co.link is None, "force_unwind ran the coroutine")
            m.ob("own/stack-once", co.stack.used is None, f"the stack is {co.stack.used}")
        elif st == "unstarted":
            dp = co.func.info.get("raised")
            m.ob("closure/dropped-not-called", co.func.used == "dropped" and co.bodyruns == 0, f"the closure of an unstarted coroutine is {co.func.used}")
            if dp is None:
                m.ob("unwind/noop", payload is None, "force_unwind of an unstarted coroutine panicked")
            else:
                m.ob("panic/payload", payload is not None and self.same_payload(payload, dp), "the panic of the closure's destructor is not propagated")
            co.state = "done"
        else:
            co.forcing = None
            m.ob("unwind/reached-body", co.forced_payload is not None, "force_unwind did not unwind the suspended coroutine")
            out = co.out
            if out is not None and out[0] == "panic" and self.same_payload(out[1], co.forced_payload):
                m.ob("unwind/clean", payload is None, f"force_unwind panicked although the coroutine unwound normally")
                o = co.forced_payload.lv.obj
                m.ob("own/leak", (not o.live) or o.taken, "the forced-unwind payload is leaked")
                self.cover("forced-clean")
            elif out is not None and out[0] == "panic":
                m.ob("panic/payload", payload is not None and self.same_payload(payload, out[1]),
                     "a different panic raised during the forced unwind must propagate out of force_unwind")
                self.cover("forced-other-panic")
            else:
                m.ob("unwind/swallowed-reported", payload is not None, "the body caught the forced unwind but force_unwind did not panic")
                m.ob("unwind/swallowed-value-dropped", out[1].used == "dropped", f"{out[1].name} produced after a caught forced unwind is {out[1].used}")
                self.cover("forced-swallowed-" + out[0])
            co.out = None

    def force_unwind(self, co):
        m = self.m
        st = self.expect_forced(co)
        self.move(co)
        pay = None
        try:
            yield from self.api("Coroutine::force_unwind", [self.ref(co.obj)], Req("force_unwind", co))
        except PanicEx as p:
            pay = p.payload
        self.after_forced(co, st, pay)
        if pay is not None:
            self.swallow(pay)
        yield from self.check_state(co)
        self.cover(f"force_unwind-{st}")

    def drop(self, co):
        """drop the coroutine value"""
        m = self.m
        st = self.expect_forced(co)
        self.move(co)

        def aborts(m, why):
            # a panic escaping from Drop must abort; legal only if the body did not unwind cleanly
            m.ob("drop/abort-justified", self.drop_may_abort(co, st), f"dropping a {st} coroutine aborts: {why}")
            self.cover(f"drop-abort-{st}")
        save = m.expect_abort
        if save is None:
            m.expect_abort = aborts
        try:
            yield from self.drop_obj(co.obj, Req("drop", co))
        except PanicEx as p:
            if co.stack.info.get("raised") is not None and self.same_payload(p.payload, co.stack.info["raised"]):
                m.expect_abort = save
                self.after_forced(co, st, None)
                self.swallow(p.payload)
                self.cover("drop-stack-panics")
                return
            m.fail("drop/panic-escapes", "a panic escapes from dropping a coroutine")
        m.expect_abort = save
        self.after_forced(co, st, None)
        m.ob("lifecycle/dropped-complete", co.state == "done", f"dropped while {co.state}")
        co.obj.live = False
        m.ob("own/stack-once", co.stack.used == "dropped", f"the stack of a dropped coroutine is {co.stack.used}")
        self.cover(f"drop-{st}")

    def drop_may_abort(self, co, st):
        if st == "unstarted":
            return co.func.info.get("raised") is not None
        if st == "refused":
            return co.state == "suspended" and co.stack.used is None and co.link is None
        if st == "suspended":
            out = co.out
            return out is not None and not (out[0] == "panic" and self.same_payload(out[1], co.forced_payload))
        return False

    def force_reset(self, co):
        m = self.m
        yield from self.api("Coroutine::force_reset", [self.ref(co.obj)])
        if co.state == "unstarted":
            co.func.info["forgotten_ok"] = True
        for a in list(m.acts):
            if a.seg.region is co.region:
                m.discard_seg(a.seg)
                m.acts.remove(a)
        co.state = "done"
        yield from self.check_state(co)
        self.cover("force_reset")

    def into_stack(self, co):
        """returns the stack token, or None when refused"""
        m = self.m
        st = self.expect_forced(co)
        v0 = co.obj.val
        co.obj.live = False

        def aborts(m, why):
            m.ob("drop/abort-justified", self.drop_may_abort(co, st), f"into_stack of a {st} coroutine aborts: {why}")
            self.cover(f"into_stack-abort-{st}")
        save = m.expect_abort
        if save is None:
            m.expect_abort = aborts
        try:
            s = yield from self.api("Coroutine::into_stack", [v0])
        except PanicEx as p:
            m.expect_abort = save
            m.ob("into_stack/refused-justified", st != "done", "into_stack of a completed coroutine panicked")
            self.after_forced(co, st, None)
            m.ob("own/stack-once", co.stack.used == "dropped", f"after a refused into_stack the stack is {co.stack.used}")
            self.swallow(p.payload)
            self.cover("into_stack-refused-" + st)
            return None
        m.expect_abort = save
        m.ob("into_stack/only-done", st == "done", f"into_stack of a {st} coroutine succeeded")
        m.ob("into_stack/same-stack", s is co.stack, f"into_stack returned {s}")
        self.remembered(s)
        m.ob("own/stack-once", co.stack.used is None, f"into_stack: the stack is {co.stack.used}")
        self.cover("into_stack")
        return s

    def user_drop(self, t):
        """user code drops a value it owns"""
        m = self.m
        m.consume(t, "dropped")
        return iter(())

    CLOSURES = ("Func", "TrapFn")

    def small(self, ty):
        """restrict the layout of a generic type to one class (the scenarios that are about
        layout leave it free; with `full` every scenario does)"""
        m = self.m
        if self.full:
            return
        T = self.T(ty)
        sz, al = m.size_of(T), m.align_of(T)
        if ty in self.CLOSURES:
            m.assume(z3.ULE(sz, m.bv(1024)))
            m.assume(sz & m.bv(15) == 0)
            m.assume(z3.ULE(al, m.bv(m.pb)))
        else:
            m.assume(z3.UGT(sz, m.bv(2 * m.pb)))

    def drop_panics(self, t, name):
        """from now on the destructor of t panics"""
        def f(m):
            p = self.payload(name)
            t.info["raised"] = p
            return p
        t.info["drop_panics"] = f

    def accessors(self):
        """CoroutineResult::as_yield / as_return"""
        m = self.m
        ty = self.rettype("Coroutine::resume")
        kind = self.choose(["Yield", "Return"], "kind")
        t = self.tok(kind, "value")
        vi = [i for i, v in enumerate(ty.j["variants"]) if v["name"] == kind][0]
        which = self.choose(["as_yield", "as_return"], "accessor")
        v = yield from self.api("CoroutineResult::" + which, [Agg(ty, vi, [t])])
        some = which == "as_" + kind.lower()
        name = v.ty.j["variants"][v.variant]["name"]
        m.ob("value/accessor", name == ("Some" if some else "None"), f"{which} of {kind} is {name}")
        if some:
            m.ob("value/accessor", v.fields[0] is t, f"{which} returned {v.fields[0]}")
            m.consume(t, "given")
        else:
            m.ob("value/accessor-dropped", t.used == "dropped", f"the value is {t.used}")
        self.cover("accessor")

    def ref_stack(self):
        """&mut S reports the bounds of S"""
        m = self.m
        st = self.new_stack()
        r = st.info["region"]
        o = m.newobj("stack", st.ty, st, "heap")
        o.seg = None
        for f, want in (("base", r.hi), ("limit", r.limit)):
            cal = self.prog.api["Stack::" + f]
            inst = self.prog.insts[cal["id"]]
            aty = self.prog.ty(inst.body["locals"][1])          # &&mut Stk
            ity = self.prog.ty(aty.j["to"])
            inner = m.newobj("mutref", ity, self.ref(o).retype(ity), "heap")
            inner.seg = None
            v = yield from self.api("Stack::" + f, [self.ref(inner)])
            m.ob("stack/ref-bounds", v.e == want, f"{f}() of a reference differs")
        m.consume(o.val, "dropped")
        o.live = False
        self.cover("ref_stack")

    # ------------------------------------------------------------ on_stack / on_parent_stack
    def on_stack(self, body, st=None):
        """contract of corosensei::on_stack; returns result token or raises PanicEx"""
        m = self.m
        st = st or self.new_stack("OStk", "ostack")
        r = st.info["region"]
        g = Ghost()
        g.runs, g.out, g.finished = 0, None, False
        caller = m.cur

        def prog(m, *a):
            g.runs += 1
            m.ob("on_stack/once", g.runs == 1, "the closure runs twice")
            m.ob("on_stack/on-given-stack", m.cur.region is r and m.cur is not caller, f"closure runs on {m.cur.region}")
            try:
                yield from body(self, g)
            except PanicEx as p:
                g.out = ("panic", p.payload)
                g.finished = True
                raise
            t = self.tok("ORes", "on_stack-result")
            g.out = ("return", t)
            g.finished = True
            return t
        f = self.tok("OFunc", "on_stack-closure", prog=prog, owner=g)
        old = st.info["on_dropped"]

        def dropped(t):
            m.ob("own/stack-last", g.finished, "the stack given to on_stack is dropped before the closure finished")
            old(t)
        st.info["on_dropped"] = dropped
        req = Req("on_stack", g)
        try:
            v = yield from self.api("coroutine::on_stack", [st, f], req)
        except PanicEx as p:
            m.ob("panic/unexpected", g.out is not None and g.out[0] == "panic", f"on_stack panicked, closure: {g.out}")
            m.ob("panic/payload", self.same_payload(p.payload, g.out[1]), "payload of on_stack closure")
            m.ob("own/stack-once", st.used == "dropped", f"stack of on_stack is {st.used}")
            o = p.payload.lv.obj
            m.ob("own/once", o.live and not o.taken, "panic payload was consumed on the way")
            self.cover("on_stack-panicked")
            raise
        m.ob("value/result-kind", g.out is not None and g.out[0] == "return", f"on_stack returned although the closure {g.out}")
        m.ob("value/result", v is g.out[1], f"on_stack returned {v}, closure returned {g.out[1]}")
        m.ob("on_stack/same-context", m.cur is caller, "on_stack returned in another context")
        m.consume(v, "given")
        m.ob("own/stack-once", st.used == "dropped", f"stack of on_stack is {st.used}")
        self.cover("on_stack-returned")
        return v

    def on_parent_stack(self, co, body):
        m = self.m
        g = Ghost()
        g.runs, g.out = 0, None
        caller = m.cur
        parent = co.link

        def prog(m, *a):
            g.runs += 1
            m.ob("on_parent/once", g.runs == 1, "the closure runs twice")
            m.ob("on_parent/on-parent-stack", m.cur.region is parent.seg.region, f"closure runs on {m.cur.region}, the parent is on {parent.seg.region}")
            m.ob("on_parent/below-live-data", z3.ULE(m.cur.E, parent.A), "closure must run below the parent's live data")
            try:
                yield from body(self, g)
            except PanicEx as p:
                g.out = ("panic", p.payload)
                raise
            t = self.tok("PRes", "on_parent-result")
            g.out = ("return", t)
            return t
        f = self.tok("PFunc", "on_parent-closure", prog=prog, owner=g)
        req = Req("on_parent_stack", g)
        try:
            v = yield from self.api("Yielder::on_parent_stack", [co.yielder, f], req)
        except PanicEx as p:
            m.ob("panic/unexpected", g.out is not None and g.out[0] == "panic", f"on_parent_stack panicked, closure: {g.out}")
            m.ob("panic/payload", self.same_payload(p.payload, g.out[1]), "payload of on_parent_stack closure")
            o = p.payload.lv.obj
            m.ob("own/once", o.live and not o.taken, "panic payload was consumed on the way")
            m.ob("on_parent/same-context", m.cur is caller, "on_parent_stack unwound in another context")
            self.cover("on_parent-panicked")
            raise
        m.ob("value/result-kind", g.out is not None and g.out[0] == "return", f"on_parent_stack returned although the closure {g.out}")
        m.ob("value/result", v is g.out[1], f"on_parent_stack returned {v}, closure returned {g.out[1]}")
        m.ob("on_parent/same-context", m.cur is caller, "on_parent_stack returned in another context")
        m.ob("on_parent/link-kept", co.link is parent)
        m.consume(v, "given")
        self.cover("on_parent-returned")
        return v

    # ------------------------------------------------------------ traps
    def trap_handler(self, co):
        m = self.m
        v = yield from self.api("Coroutine::trap_handler", [self.ref(co.obj)])
        o = m.newobj("trap_handler", self.rettype("Coroutine::trap_handler"), v, "heap")
        o.seg = None
        co.th = o
        return o

    def in_bounds(self, co, sp):
        m = self.m
        v = yield from self.api("CoroutineTrapHandler::stack_ptr_in_bounds", [self.ref(co.th), I(m.usize, sp)])
        r = co.region
        m.ob("trap/bounds", m.truth(v) == z3.And(z3.UGE(sp, r.limit), z3.ULT(sp, r.hi)), "stack_ptr_in_bounds")
        self.cover("trap-bounds")
        return v

    def trap(self, co, body):
        """the coroutine traps; a handler on another stack redirects it"""
        m = self.m
        seg = m.cur
        m.ob("internal", seg.owner is co and seg.kind == "asmfn")
        hr = self.new_main()
        hr.teb = co.region.teb
        g = Ghost()

        def prog(m, *a):
            co.traps = getattr(co, "traps", 0) + 1
            m.ob("trap/once", co.traps == 1, "the trap closure runs twice")
            if m.arch.teb is not None:
                m.ob("trap/guard-page", getattr(co.region, "guard_reset", False), "the guard page is not restored before the closure runs")
            m.ob("trap/on-coroutine-stack", m.cur.region is co.region, f"trap closure runs on {m.cur.region}")
            try:
                yield from body(self, co)
            except PanicEx as p:
                co.state = "done"
                co.out = ("panic", p.payload)
                raise
            t = self.tok("Return", "trap-return")
            co.state = "done"
            co.out = ("return", t)
            return t
        f = self.tok("TrapFn", "trap-closure", prog=prog, owner=co)

        def handler():
            sp = m.sym("trapsp")
            m.bind(sp, co.region)
            m.assume(z3.UGE(sp, co.region.limit))
            m.assume(z3.ULT(sp, co.region.hi))
            v = yield from self.in_bounds(co, sp)
            try:
                regs = yield from self.api("CoroutineTrapHandler::setup_trap_handler", [self.ref(co.th), f])
            except PanicEx as p:
                self.swallow(p.payload)
                m.ob("closure/refused-justified", self.too_big("TrapFn"), "setup_trap_handler panicked although the closure is within the limits")
                m.ob("closure/refused-dropped-once", f.used == "dropped", f"refused trap closure is {f.used}")
                self.cover("trap-refused")
                raise PathEnd("refused")
            m.ob("closure/limit-respected", z3.ULE(m.size_of(self.T("TrapFn")), m.bv(1024)), "closures larger than the limit must be refused")

            def jump(m, env):
                m.discard_seg(seg)
                names = [x["name"] for x in regs.ty.core.j["variants"][0]["fields"]]
                from .asm import _NOUNIT
                cpu = {g_: m.sym("trap_" + g_, m.gbits) for g_ in m.gprs}
                ip = None
                for n, v in zip(names, regs.fields):
                    if n in ("rip", "eip", "pc"):
                        ip = v.e
                        continue
                    if n.startswith("cpsr_"):
                        m.ob("trap/registers", v.e == (m.arch.code_low if n == "cpsr_thumb" else 0), f"{n} on a little-endian target with {'Thumb' if m.arch.code_low else 'ARM'} code")
                        continue
                    r = m.arch.regname(n) or m.arch.regname("$" + n)
                    if r is None:
                        raise Unsupported(f"trap register {n}")
                    cpu[r[0]] = v.e
                m.ob("trap/registers", ip is not None)
                if m.arch.code_low:
                    m.ob("trap/registers", ip & m.bv(1) == 0, "the program counter is an address without the Thumb bit")
                    ip = simp(ip + 1)
                # memory below the top of the stack that the interrupted code used keeps its contents
                m.regs = cpu
                m.a_act = None
                m.a_virt = {}
                m.a_unit, m.a_pos, m.a_flags = _NOUNIT, 0, None
                if m.arch.teb is not None:
                    m.cur = seg
                    m.teb_user()
                    # 32-bit code registers handlers as it runs, 64-bit code does not
                    m.teb["el"] = m.bv(-1) if m.x64 else m.seh_record(m.teb["el"], m.sym("handler"))
                self.cover("trap")
                if not m.goto_code(ip, "return from the trap handler"):
                    m.asm_run()
            yield jump

        def go(m, env):
            h = Seg("env", hr, hr.mainE)
            m.cur = h
            m.push(EnvFrame(handler(), "trap-handler"))
        yield go
        m.fail("trap/continues", "the interrupted code continues after the trap")

    # ------------------------------------------------------------ induction over resumes
    def induct(self, co):
        """The suspended state after every suspend is the same up to renaming of the unknowns
        that each suspension introduces; with the environment free to do anything at either,
        this is the induction step for any number of resumes."""
        m = self.m
        acts = [a for a in m.acts if a.req is not None and a.req.kind == "suspend" and a.req.co is co]
        m.ob("induction/parked", len(acts) == 1, f"{len(acts)} contexts are parked in {co}")
        n = self.normal(co, acts[0])
        co.norms.append(n)
        if len(co.norms) >= 2:
            m.ob("induction/suspended-state", n == co.norms[0], f"{n} differs from {co.norms[0]}")
            self.cover("induction")

    def normal(self, co, act):
        m = self.m
        names = {}
        ents = {act.entry[g].get_id(): f"saved {g}" for g in m.gprs if z3.is_expr(act.entry[g])}

        def ren(e):
            e = simp(e)
            if e.get_id() in ents:
                return ents[e.get_id()]
            out = []
            for v in sorted(vars_of(e)):
                if v == act.A.decl().name():
                    out.append("A")
                elif v in (co.region.lo.decl().name(), co.region.hi.decl().name()) or v.startswith(("code<", "size<", "align<", "off<")):
                    out.append(v)
                else:
                    names.setdefault(v, f"x{len(names)}")
                    out.append(names[v])
            s = str(e)
            for v in sorted(vars_of(e), key=len, reverse=True):
                r = "A" if v == act.A.decl().name() else names.get(v, v)
                s = s.replace(v, r)
            return s

        def val(v):
            if isinstance(v, I):
                return ren(v.e)
            if isinstance(v, Agg):
                return (v.variant,) + tuple(val(f) for f in v.fields)
            if isinstance(v, Tok):
                return v.name
            return str(type(v).__name__)
        words = []
        r = co.region
        for k in range(1, 7):
            x = m.peek(act.A - m.bv(k * m.pb))
            x = None if x is None else simp(x)
            if x is None or any(n.startswith(("garbage", "stackword")) for n in vars_of(x)):
                words.append("unknown")
            else:
                words.append(ren(x))
        top = []
        for k in range(1, 3):
            x = m.peek(r.hi - m.bv(k * m.pb))
            x = None if x is None else simp(x)
            if x is None or any(n.startswith(("garbage", "stackword")) for n in vars_of(x)):
                top.append("unknown")
            else:
                top.append(ren(x))
        libfr = []
        for f in reversed(act.seg.frames):
            if isinstance(f, EnvFrame):
                break
            libfr.append(str(f))
        # the link word describes the (now inactive) parent; it must not be relied on: forget it
        return (val(co.obj.val), tuple(words), tuple(top), act.block.name, libfr)

    # ------------------------------------------------------------ DefaultStack
    def os(self):
        from .osmodel import OS, WinOS, Valgrind
        m = self.m
        if m.arch.teb is not None:
            self.OS = WinOS(m)
            self.VG = Valgrind(m, "plain")
            return self.OS
        self.OS = OS(m)
        self.VG = Valgrind(m, self.choose(["plain", "valgrind"], "valgrind"))
        return self.OS

    def balanced(self, what):
        m = self.m
        for mp in self.OS.maps:
            m.ob("os/leak", not mp.live, f"{what} leaks {mp}")
        for e in self.VG.regs:
            m.ob("valgrind/leak", not e[3], f"{what} leaves a stack registered with Valgrind")

    def default_ok_windows(self, o, mp, size):
        """committed pages at the top, guard pages and the guaranteed pages below them, then
        reserved pages for the stack to grow into, and one page that stays reserved"""
        m, os = self.m, self.OS
        P, G = os.P(), os.G()
        guard = P + P if m.W == 64 else P
        b = (yield from self.api("Stack::base", [self.ref(o)])).e
        l = (yield from self.api("Stack::limit", [self.ref(o)])).e

        def fields():
            v = yield from self.api("Stack::teb_fields", [self.ref(o)])
            return {x["name"]: f.e for x, f in zip(v.ty.core.j["variants"][0]["fields"], v.fields)}
        t = yield from fields()
        L, A = t["StackLimit"], guard + G
        need = z3.If(z3.ULT(size, m.bv(m.min_stack())), m.bv(m.min_stack()), size)
        m.ob("stack/base-alignment", b & m.bv(15) == 0, "base() is not aligned")
        m.ob("teb/stack-base", z3.And(t["StackBase"] == b, b == mp.hi), "StackBase is not the end of the reservation")
        m.ob("teb/deallocation-stack", z3.And(t["DeallocationStack"] == mp.lo, l == mp.lo), "DeallocationStack or limit() is not the start of the reservation")
        m.ob("teb/guaranteed-bytes", t["GuaranteedStackBytes"] == G, "GuaranteedStackBytes is not the guarantee of the thread in whole pages")
        m.ob("teb/stack-limit", z3.And(L & (P - 1) == 0, z3.ULE(L, b - m.bv(m.min_stack())), z3.UGE(L, mp.lo + A + P)), "StackLimit leaves no room")
        m.ob("stack/size", z3.And(z3.UGE(b - mp.lo, A + P), z3.UGE(b - mp.lo - A - P, need)), "the usable stack is smaller than requested")
        x = m.sym("x")
        m.assume(z3.UGE(x, mp.lo))
        m.assume(z3.ULT(x, b))
        pr = os.prot_at(mp, x)
        m.ob("stack/committed", z3.Implies(z3.UGE(x, L), pr == os.RW), "memory between StackLimit and base() is not writable")
        m.ob("stack/guard-page", z3.Implies(z3.And(z3.ULT(x, L), z3.UGE(x, L - A)), pr == os.RW | os.GUARD), "no guard pages below StackLimit")
        m.ob("stack/reserved", z3.Implies(z3.ULT(x, L - A), pr == 0), "memory below the guard pages is committed")
        nl, ng = m.sym("newlimit"), m.sym("newguarantee")
        yield from self.api("Stack::update_teb_fields", [self.ref(o), I(m.usize, nl), I(m.usize, ng)])
        t2 = yield from fields()
        m.ob("teb/remembered", z3.And(t2["StackLimit"] == nl, t2["GuaranteedStackBytes"] == ng, t2["StackBase"] == b, t2["DeallocationStack"] == l),
             "the stack does not remember the fields it is told")
        m.ob("stack/base-fixed", (yield from self.api("Stack::base", [self.ref(o)])).e == b)
        self.cover("teb-default-stack")

    def default_ok(self, v, size):
        """the postcondition of a successful creation; returns the stack object"""
        m = self.m
        o = m.newobj("default-stack", v.ty, v, "heap")
        o.seg = None
        live = [mp for mp in self.OS.maps if mp.live]
        m.ob("os/one-mapping", len(live) == 1, f"{len(live)} mappings after creation")
        mp = live[0]
        self.live_map = mp
        if m.arch.teb is not None:
            yield from self.default_ok_windows(o, mp, size)
            return o
        b = yield from self.api("Stack::base", [self.ref(o)])
        l = yield from self.api("Stack::limit", [self.ref(o)])
        b, l = b.e, l.e
        P = self.OS.P()
        m.ob("stack/base-alignment", b & m.bv(15) == 0, "base() is not aligned")
        m.ob("stack/limit-alignment", l & m.bv(15) == 0, "limit() is not aligned")
        need = z3.If(z3.ULT(size, m.bv(m.min_stack())), m.bv(m.min_stack()), size)
        m.ob("stack/inside-mapping", z3.And(z3.UGE(l, mp.lo), z3.ULE(b, mp.hi), z3.ULT(l, b)), "base and limit are not inside the mapping")
        m.ob("stack/size", z3.And(z3.ULE(P, b - l), z3.UGE(b - l - P, need)), "the usable stack is smaller than requested")
        x = m.sym("x")
        m.assume(z3.UGE(x, l))
        m.assume(z3.ULT(x, b))
        pr = self.OS.prot_at(mp, x)
        m.ob("stack/guard-page", z3.Implies(z3.ULT(x - l, P), pr & 7 == 0), "the page at limit() is not a guard page")
        m.ob("stack/no-gap", z3.Implies(z3.UGE(x - l, P), pr & 3 == 3), "memory between the guard page and base() is not writable")
        # what the caller asked for follows from those facts alone: state them over names
        N = {k: m.sym(k) for k in ("B", "L", "X", "need", "P")}
        PR = m.sym("prot", pr.size())
        facts = [N["B"] == b, N["L"] == l, N["X"] == x, N["need"] == need, N["P"] == P, PR == pr]
        B, L, X, ND, PP = (N[k] for k in ("B", "L", "X", "need", "P"))
        lemma = z3.And(z3.ULT(L, B), z3.ULE(L, X), z3.ULT(X, B), z3.ULE(PP, B - L), z3.UGE(B - L - PP, ND), z3.Implies(z3.UGE(X - L, PP), PR & 3 == 3))
        for c in facts:
            m.assume(c)
        m.assume(lemma)          # each conjunct was proved above for b, l, x, need, P and pr
        m.ob("stack/read-write", z3.Implies(z3.ULT(B - X - 1, ND), PR & 3 == 3), "memory within the requested size below base() is not readable and writable")
        regs = [e for e in self.VG.regs if e[3]]
        m.ob("valgrind/registered", len(regs) == 1 and len(self.VG.regs) == 1, f"{len(regs)} Valgrind registrations after creation")
        m.ob("valgrind/range", z3.And(regs[0][1] == mp.lo, regs[0][2] == mp.hi), "the range registered with Valgrind is not the mapping")
        return o

    def default_panic_ok(self, size):
        m, P = self.m, self.OS.P()
        return z3.Or(z3.Not(self.OS.pow2()), self.OS_overflow(size))

    def OS_overflow(self, size):
        m, P = self.m, self.OS.P()
        z = lambda e: z3.ZeroExt(8, e)
        need = z3.If(z3.ULT(size, m.bv(m.min_stack())), m.bv(m.min_stack()), size)
        if m.arch.teb is not None:
            return z3.UGT(z(need) + z(self.OS.G()) + (4 if m.W == 64 else 3) * z(P) - 1, z(m.bv((1 << m.W) - 1)))
        return z3.UGT(z(need) + z(P) + z(P) - 1, z(m.bv((1 << m.W) - 1)))

    def default_new(self):
        """contract of DefaultStack::new; returns the stack object or None"""
        m = self.m
        size = m.sym("size")
        try:
            v = yield from self.api("DefaultStack::new", [I(m.usize, size)])
        except PanicEx as p:
            self.swallow(p.payload)
            m.ob("stack/panic-justified", self.default_panic_ok(size), "DefaultStack::new panicked although the size does not overflow")
            self.balanced("a panicking DefaultStack::new")
            self.cover("default-new-panics")
            return None
        kind = v.ty.j["variants"][v.variant]["name"]
        if kind == "Err":
            m.ob("stack/error-justified", self.OS.failed, "DefaultStack::new fails although no system call failed")
            m.ob("stack/error-value", isinstance(v.fields[0], Tok) and v.fields[0].info.get("err"))
            self.balanced("a failed DefaultStack::new")
            self.cover("default-new-fails")
            return None
        m.ob("stack/error-reported", not self.OS.failed, "DefaultStack::new succeeds although a system call failed")
        m.ob("stack/no-wrap", z3.Not(self.OS_overflow(size)), "the size computation wrapped around")
        o = yield from self.default_ok(v.fields[0], size)
        self.cover("default-new")
        return o

    def default_default(self):
        m = self.m
        try:
            v = yield from self.api("Default::default", [])
        except PanicEx as p:
            self.swallow(p.payload)
            m.ob("stack/panic-justified", z3.Or(z3.BoolVal(self.OS.failed), self.default_panic_ok(m.bv(1 << 20))), "DefaultStack::default panicked although nothing failed")
            self.balanced("a panicking DefaultStack::default")
            self.cover("default-default-panics")
            return None
        m.ob("stack/error-reported", not self.OS.failed)
        o = yield from self.default_ok(v, m.bv(1 << 12))
        self.cover("default-default")
        return o

    def default_drop(self, o):
        m = self.m
        yield from self.drop_obj(o)
        self.balanced("dropping a DefaultStack")
        o.live = False
        self.cover("default-drop")

    def default_co(self):
        """Coroutine::new with the default stack, dropped without being resumed"""
        m = self.m
        f = self.tok("Func", "closure")
        try:
            v = yield from self.api("Coroutine::new", [f])
        except PanicEx as p:
            self.swallow(p.payload)
            m.ob("closure/refused-dropped-once", f.used == "dropped", f"the closure of a failed Coroutine::new is {f.used}")
            m.ob("stack/panic-justified", z3.Or(z3.BoolVal(self.OS.failed), self.default_panic_ok(m.bv(1 << 20)), self.too_big("Func")), "Coroutine::new panicked although nothing failed")
            self.balanced("a panicking Coroutine::new")
            self.cover("co-new-panics")
            return
        m.ob("closure/stored", f.used is None)
        live = [mp for mp in self.OS.maps if mp.live]
        m.ob("os/one-mapping", len(live) == 1, f"{len(live)} mappings after Coroutine::new")
        live[0].on_unmap = lambda: m.ob("own/stack-last", f.used == "dropped", "stack unmapped before the closure stored on it was dropped")
        o = m.newobj("coroutine", v.ty, v, "heap")
        o.seg = None
        yield from self.drop_obj(o)
        m.ob("closure/dropped-not-called", f.used == "dropped", f"closure is {f.used}")
        self.balanced("dropping a coroutine")
        o.live = False
        self.cover("co-new")


def explore(prog, scenario, rec, unwind=True, deadline=None, machine=Machine, full=False, prefix=(), budget=None):
    """Run the scenario over all choices that start with prefix.  When the budget (seconds) is
    used up, the prefixes still to be explored are returned."""
    import time
    dec = list(prefix)
    base = len(dec)
    t0 = time.time()
    while True:
        Co.n = 0
        m = machine(prog, rec, dec)
        bad = sum(o[1] + o[2] for o in rec.obs.values())
        try:
            s = Spec(m, unwind, full)
            s.start(scenario(s))
            m.check_statics()
            m.cover("path")
        except PathEnd:
            pass
        except Unsupported as e:
            msg = f"{e}"
            if msg not in rec.unsupported:
                rec.unsupported.append(msg)
            rec.unsup_where = m.location() if m.cur else ""
            rec.nunsup = getattr(rec, "nunsup", 0) + 1
            if rec.nunsup > 20:
                return []
        except RecursionError:
            rec.unsupported.append("recursion")
            return []
        except Exception as e:
            # after a failed obligation of another property the ghost state may be meaningless
            if sum(o[1] + o[2] for o in rec.obs.values()) == bad:
                import traceback
                msg = "internal: " + traceback.format_exc()[-1200:]
                if msg not in rec.unsupported:
                    rec.unsupported.append(msg)
                rec.nunsup = getattr(rec, "nunsup", 0) + 1
                if rec.nunsup > 20:
                    return []
            else:
                rec.ob("path/undecided", "fail", {"detail": f"the path cannot be followed past a failed obligation ({e!r})", "where": "", "trace": m.trace[-30:]})
        rec.paths += 1
        rec.steps += m.steps
        d, a = m.dec[:m.di], m.arity[:m.di]
        while len(d) > base and d[-1] + 1 >= a[-1]:
            d.pop()
            a.pop()
        if len(d) <= base:
            return []
        d[-1] += 1
        if deadline and time.time() > deadline:
            rec.unsupported.append(f"time limit in {scenario.__name__}")
            return []
        if budget is not None and time.time() - t0 > budget:
            rest = []
            for k in range(len(d) - 1, base - 1, -1):
                for j in range(d[k] if k == len(d) - 1 else d[k] + 1, a[k]):
                    rest.append(tuple(d[:k]) + (j,))
            return rest
        dec = d
