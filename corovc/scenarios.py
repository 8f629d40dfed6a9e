"""Environment programs: what user code may do with the library.

Every scenario is a program over the contracts of spec.py.  All data (layouts of the generic
types, values, stack addresses and sizes, register contents, stack depths) stays symbolic;
only the shape of the history is enumerated, and the induction obligations in
Spec.induct / Spec.normal extend it to any number of resumes."""
from .core import *
from .spec import *


# ---------------------------------------------------------------- helpers
def plain(n=None, end=("return", "panic")):
    """a body that suspends n times and then returns or panics"""
    def body(s, co):
        k = s.choose([0, 1, 2] if n is None else n, "suspends")
        for i in range(k):
            yield from s.suspend(co)
        if s.choose(list(end), "end") == "panic":
            raise s.panic("boom")
    return body


def run(s, co, hop=True):
    """resume until completion, swallowing a panic"""
    try:
        while co.state != "done":
            if hop:
                s.hop()
            yield from s.resume(co)
    except PanicEx as p:
        s.swallow(p.payload)


# ---------------------------------------------------------------- coroutine life
def life(s):
    """create, resume to the end (0, 1 or 2 suspensions, return or panic), resume again, drop"""
    s.small("Func")
    co = yield from s.new_co(plain())
    yield from run(s, co)
    yield from s.resume(co)
    yield from s.resume(co)
    yield from s.drop(co)


def layouts(s):
    """closures of any size and alignment: refused, called, or dropped without being called"""
    co = yield from s.new_co(plain([0]))
    if co is None:
        return
    what = s.choose(["resume", "drop", "unwind"], "then")
    if what == "resume":
        yield from run(s, co)
        yield from s.drop(co)
    elif what == "drop":
        yield from s.drop(co)
    else:
        yield from s.force_unwind(co)
        yield from s.resume(co)
        yield from s.force_unwind(co)
        yield from s.drop(co)


def closure_drop_panics(s):
    """the destructor of a never called closure panics"""
    s.small("Func")
    st = s.new_stack()
    co = yield from s.new_co(plain([0]), st)
    s.drop_panics(co.func, "closure destructor panics")
    what = s.choose(["unwind", "drop"], "how")
    if what == "unwind":
        yield from s.force_unwind(co)
        yield from s.force_unwind(co)
        yield from s.resume(co)
    yield from s.drop(co)


def stack_drop_panics(s):
    """the destructor of the user's stack type panics"""
    s.small("Func")
    st = s.new_stack()
    co = yield from s.new_co(plain([1], ["return"]), st)
    n = s.choose([0, 1, 2], "resumes")
    for i in range(n):
        yield from s.resume(co)
    s.drop_panics(st, "stack destructor panics")
    yield from s.drop(co)


def unwinding_body(react, n=(1,)):
    def body(s, co):
        for i in range(s.choose(list(n), "suspends")):
            try:
                yield from s.suspend(co)
            except PanicEx as p:
                r = s.choose(react, "reaction")
                if r == "propagate":
                    raise
                if r == "other":
                    s.swallow(p.payload)
                    raise s.panic("other")
                if r == "return":
                    s.swallow(p.payload)
                    return
                if r == "suspend-in-destructor":
                    yield from s.suspend(co)
                    s.cover("destructor-suspended")
                    raise
                if r == "suspend":
                    s.swallow(p.payload)
                    try:
                        yield from s.suspend(co)
                    except PanicEx as q:
                        raise
                    return
    return body


def forced(s):
    """force_unwind of a suspended coroutine with every reaction of the body"""
    s.small("Func")
    co = yield from s.new_co(unwinding_body(["propagate", "other", "return", "suspend"], (1, 2)))
    for i in range(s.choose([1, 2], "resumes")):
        if co.state != "done":
            yield from s.resume(co)
    s.hop()
    yield from s.force_unwind(co)
    if co.state == "done":
        if s.choose(["drop", "resume", "unwind"], "then") == "resume":
            yield from s.resume(co)
        else:
            yield from s.force_unwind(co)
    else:
        if s.choose(["resume", "unwind"], "then") == "resume":
            yield from s.resume(co)
        else:
            yield from s.force_unwind(co)
    yield from s.drop(co)


def forced_destructor(s):
    """a destructor suspends while the stack is being unwound; the unwinding goes on when the
    coroutine is resumed"""
    s.small("Func")
    s.small("Input"), s.small("Yield"), s.small("Return")
    co = yield from s.new_co(unwinding_body(["suspend-in-destructor"], (1,)))
    yield from s.resume(co)
    s.hop()
    yield from s.force_unwind(co)
    s.hop()
    try:
        yield from s.resume(co)
    except PanicEx as p:
        s.swallow(p.payload)
    yield from s.drop(co)


def dropped(s):
    """dropping a coroutine in every state, with every reaction of the body"""
    s.small("Func")
    co = yield from s.new_co(unwinding_body(["propagate", "other", "return", "suspend"], (1,)))
    for i in range(s.choose([0, 1, 2], "resumes")):
        yield from s.resume(co)
    s.hop()
    yield from s.drop(co)


def intostack(s):
    """into_stack in every state; the stack of a completed coroutine is used again"""
    s.small("Func")
    st = s.new_stack()
    co = yield from s.new_co(unwinding_body(["propagate", "other", "return", "suspend"], (1,)), st)
    for i in range(s.choose([0, 1, 2], "resumes")):
        yield from s.resume(co)
    s.hop()
    st2 = yield from s.into_stack(co)
    if st2 is None:
        return
    if s.choose(["drop", "reuse"], "then") == "drop":
        yield from s.user_drop(st2)
        return
    co2 = yield from s.new_co(plain([1], ["return"]), st2)
    yield from run(s, co2)
    yield from s.drop(co2)


def reset(s):
    """force_reset in every state"""
    s.small("Func")
    co = yield from s.new_co(plain([1], ["return"]))
    for i in range(s.choose([0, 1, 2], "resumes")):
        yield from s.resume(co)
    yield from s.force_reset(co)
    w = s.choose(["resume", "unwind", "drop", "into_stack"], "then")
    if w == "resume":
        yield from s.resume(co)
    elif w == "unwind":
        yield from s.force_unwind(co)
    elif w == "into_stack":
        st = yield from s.into_stack(co)
        yield from s.user_drop(st)
        return
    yield from s.drop(co)


# ---------------------------------------------------------------- several coroutines
def nested(s):
    """a coroutine creates, resumes and suspends with another one inside"""
    s.small("Func")
    s.small("Input"), s.small("Yield"), s.small("Return")

    def outer(s, co):
        b = yield from s.new_co(plain([0, 1, 2], ["return", "panic"]))
        try:
            while b.state != "done":
                yield from s.resume(b)
                if b.state != "done" and s.choose([0, 1], "outer suspends"):
                    yield from s.suspend(co)
        except PanicEx as p:
            yield from s.drop(b)
            raise
        yield from s.drop(b)
        yield from s.suspend(co)
    a = yield from s.new_co(outer)
    yield from run(s, a)
    yield from s.drop(a)


def interleaved(s):
    """one coroutine is resumed from different contexts: main, another main stack, and the
    body of another coroutine; suspended in between"""
    s.small("Func")
    s.small("Input"), s.small("Yield"), s.small("Return")
    b = yield from s.new_co(plain([2], ["return"]))

    def outer(s, co):
        yield from s.suspend(co)
        yield from s.resume(b)
        yield from s.suspend(co)
        if b.state != "done":
            yield from s.resume(b)
    a = yield from s.new_co(outer)
    yield from s.resume(a)
    if s.choose([0, 1], "b first"):
        s.hop()
        yield from s.resume(b)
    s.hop()
    yield from s.resume(a)
    if s.choose([0, 1], "b between"):
        s.hop()
        yield from s.resume(b)
    s.hop()
    yield from s.resume(a)
    yield from run(s, b)
    yield from s.drop(b)
    yield from s.drop(a)


def foreign_unwind(s):
    """a coroutine owning another suspended coroutine is unwound; the inner one's forced-unwind
    payload escapes into the outer one"""
    s.small("Func")
    s.small("Input"), s.small("Yield"), s.small("Return")
    keep = {}

    def inner(s, co):
        try:
            yield from s.suspend(co)
        except PanicEx as p:
            if s.choose(["propagate", "steal"], "inner") == "steal":
                keep["p"] = p.payload
                raise s.panic("other")
            raise

    def outer(s, co):
        b = yield from s.new_co(inner)
        yield from s.resume(b)
        try:
            yield from s.suspend(co)
        except PanicEx as p:
            yield from s.force_unwind(b)
            yield from s.drop(b)
            if "p" in keep:
                s.swallow(p.payload)
                raise PanicEx(keep["p"])
            raise
        yield from s.drop(b)
    a = yield from s.new_co(outer)
    yield from s.resume(a)
    if s.choose(["unwind", "resume"], "then") == "unwind":
        yield from s.force_unwind(a)
    else:
        try:
            yield from s.resume(a)
        except PanicEx as p:
            s.swallow(p.payload)
        if "p" in keep:
            s.swallow(keep["p"])
    yield from s.drop(a)


# ---------------------------------------------------------------- other stacks
def onstack(s):
    """on_stack from ordinary code"""
    def body(s, g):
        if s.choose(["return", "panic"], "end") == "panic":
            raise s.panic("boom")
        return
        yield
    try:
        yield from s.on_stack(body)
    except PanicEx as p:
        s.swallow(p.payload)


def onstack_in_co(s):
    """on_stack from a coroutine, with a suspension and another coroutine inside"""
    s.small("Func")
    s.small("OFunc"), s.small("ORes"), s.small("Input"), s.small("Yield"), s.small("Return")

    def inner(s, co):
        yield from s.suspend(co)

    def body(s, co):
        if s.choose([0, 1], "suspend before"):
            yield from s.suspend(co)

        def cl(s, g):
            w = s.choose(["return", "panic", "suspend", "resume-other"], "closure")
            if w == "panic":
                raise s.panic("boom")
            if w == "suspend":
                yield from s.suspend(co)
            if w == "resume-other":
                b = yield from s.new_co(inner)
                yield from s.resume(b)
                yield from s.drop(b)
        yield from s.on_stack(cl)
        yield from s.suspend(co)
    co = yield from s.new_co(body)
    yield from run(s, co)
    yield from s.drop(co)


def onstack_unwound(s):
    """a coroutine suspended inside an on_stack closure is unwound, or dropped"""
    s.small("Func")
    s.small("OFunc"), s.small("ORes"), s.small("Input"), s.small("Yield"), s.small("Return")

    def body(s, co):
        def cl(s, g):
            try:
                yield from s.suspend(co)
            except PanicEx as p:
                r = s.choose(["propagate", "other", "swallow"], "closure")
                if r == "propagate":
                    raise
                s.swallow(p.payload)
                if r == "other":
                    raise s.panic("other")
        yield from s.on_stack(cl)
    co = yield from s.new_co(body)
    yield from s.resume(co)
    s.hop()
    if s.choose(["unwind", "drop"], "how") == "unwind":
        yield from s.force_unwind(co)
    yield from s.drop(co)


def onparent_in_onstack(s):
    """on_parent_stack from a closure that runs on a third stack"""
    s.small("Func")
    s.small("OFunc"), s.small("ORes"), s.small("Input"), s.small("Yield"), s.small("Return")

    def pcl(s, g):
        if s.choose(["return", "panic"], "parent closure") == "panic":
            raise s.panic("boom")
        return
        yield

    def body(s, co):
        def cl(s, g):
            if s.choose([0, 1], "suspend before"):
                yield from s.suspend(co)
            yield from s.on_parent_stack(co, pcl)
            yield from s.suspend(co)
        yield from s.on_stack(cl)
    co = yield from s.new_co(body)
    yield from run(s, co)
    yield from s.drop(co)


def onparent(s):
    """on_parent_stack, between suspensions, from changing parents"""
    s.small("Func")
    s.small("Input"), s.small("Yield"), s.small("Return")

    def cl(s, g):
        if s.choose(["return", "panic"], "closure") == "panic":
            raise s.panic("boom")
        return
        yield

    def body(s, co):
        if s.choose([0, 1], "suspend before"):
            yield from s.suspend(co)
        try:
            yield from s.on_parent_stack(co, cl)
        except PanicEx as p:
            if s.choose(["propagate", "swallow"], "reaction") == "propagate":
                raise
            s.swallow(p.payload)
        if s.choose([0, 1], "again"):
            yield from s.suspend(co)
            yield from s.on_parent_stack(co, lambda s, g: iter(()))
    co = yield from s.new_co(body)
    yield from run(s, co)
    yield from s.drop(co)


def onparent_nested(s):
    """on_parent_stack closures that use other coroutines, from coroutines inside coroutines"""
    s.small("Func")
    s.small("Input"), s.small("Yield"), s.small("Return"), s.small("PFunc"), s.small("PRes")

    def inner(s, co):
        yield from s.on_parent_stack(co, lambda s, g: iter(()))
        yield from s.suspend(co)

    def cl(s, g):
        b = yield from s.new_co(inner)
        yield from s.resume(b)
        yield from s.drop(b)

    def mid(s, co):
        yield from s.on_parent_stack(co, cl)
        yield from s.suspend(co)

    def outer(s, co):
        b = yield from s.new_co(mid)
        yield from s.resume(b)
        yield from s.suspend(co)
        yield from s.on_parent_stack(co, lambda s, g: iter(()))
        yield from s.resume(b)
        yield from s.drop(b)
    a = yield from s.new_co(outer)
    yield from run(s, a)
    yield from s.drop(a)


# ---------------------------------------------------------------- traps
def trapped(s):
    """a trap at any point of the coroutine"""
    s.small("Func")
    s.small("Input"), s.small("Yield")

    def cl(s, co):
        if s.choose(["return", "panic"], "handler") == "panic":
            raise s.panic("boom")
        return
        yield

    def body(s, co):
        if s.choose([0, 1], "suspend before"):
            yield from s.suspend(co)
        yield from s.trap(co, cl)
    co = yield from s.new_co(body)
    yield from s.trap_handler(co)
    yield from run(s, co)
    yield from s.resume(co)
    yield from s.drop(co)


def bounds(s):
    """stack_ptr_in_bounds for every address, before the first resume, suspended and completed"""
    s.small("Func"), s.small("Input"), s.small("Yield"), s.small("Return")
    co = yield from s.new_co(plain([1], ["return"]))
    yield from s.trap_handler(co)
    for i in range(s.choose([0, 1, 2], "resumes")):
        yield from s.resume(co)
    yield from s.in_bounds(co, s.m.sym("address"))
    s.cover("trap-bounds-any")
    yield from s.drop(co)


# ---------------------------------------------------------------- without unwinding
def nu_forced(s):
    """without unwinding: force_unwind / into_stack / drop in every state"""
    s.small("Func")
    co = yield from s.new_co(plain([1, 2], ["return"]))
    for i in range(s.choose([0, 1, 2, 3], "resumes")):
        if co.state != "done":
            yield from s.resume(co)
    s.hop()
    w = s.choose(["unwind", "into_stack", "drop"], "then")
    if w == "unwind":
        yield from s.force_unwind(co)
        if co.state != "done":
            yield from run(s, co)
        yield from s.drop(co)
    elif w == "drop":
        yield from s.drop(co)
    else:
        st = yield from s.into_stack(co)
        if st is not None:
            yield from s.user_drop(st)


# ---------------------------------------------------------------- types
def accessors(s):
    yield from s.accessors()


def refstack(s):
    yield from s.ref_stack()


# ---------------------------------------------------------------- DefaultStack (root_default)
def default_new(s):
    """DefaultStack::new for every size and page size, every system call failing or not"""
    s.os()
    o = yield from s.default_new()
    if o is not None:
        yield from s.default_drop(o)


def default_default(s):
    s.os()
    o = yield from s.default_default()
    if o is not None:
        yield from s.default_drop(o)


def default_co(s):
    s.os()
    s.small("Func")
    yield from s.default_co()
