"""Contracts of the operating system calls and of the Valgrind client requests."""
import z3
from .core import *
from .mir import canon

PROT_R, PROT_W = 1, 2
MAP_PRIVATE, MAP_FIXED, MAP_ANON = 2, 0x10, 0x20


class Mapping:
    def __init__(self, n, lo, len_, hi, prot):
        self.n, self.lo, self.len, self.hi = n, lo, len_, hi
        self.prots = [(lo, hi, prot)]
        self.live = True
        self.region = None

    def __repr__(self):
        return f"mapping{self.n}"


class OS:
    """mmap / mprotect / munmap / sysconf with any page size, any placement, any failure."""

    def __init__(self, m):
        self.m = m
        self.maps = []
        self.page = None
        self.failed = False
        self.calls = []
        m.hooks["foreign"] = self.call
        m.hooks["os"] = self

    def accessible(self, mp, addr, size):
        ok = lambda x: self.prot_at(mp, x) & 3 == 3
        return z3.Or(size == 0, z3.And(ok(addr), ok(addr + size - 1)))

    def ret_int(self, ty, e):
        w = ty.core.size * 8
        e = z3.BitVecVal(e, w) if isinstance(e, int) else e
        return I(ty.core, e)

    def call(self, m, name, args, dty):
        if name == "sysconf":
            c = simp(args[0].e)
            if not z3.is_bv_value(c) or c.as_long() != 30:
                raise Unsupported(f"sysconf({c})")
            m.rec.trusted.add("sysconf(_SC_PAGESIZE): the same value every time; pages are not smaller than 4096 bytes")
            return I(dty.core, self.P())
        if name in ("mmap", "mmap64"):
            return self.mmap(args, dty)
        if name == "mprotect":
            return self.mprotect(args, dty)
        if name == "munmap":
            return self.munmap(args, dty)
        if name in ("getpagesize",):
            return I(dty.core, z3.Extract(31, 0, self.P()) if dty.core.size == 4 and m.W == 64 else self.P())
        raise Unsupported(f"foreign function {name}")

    def P(self):
        m = self.m
        if self.page is None:
            # every power of two from 4096 up is a case of its own; everything else is one case
            k = m.choose(["invalid"] + list(range(12, m.W)), "page size")
            if k == "invalid":
                self.page = m.sym("pagesize")
                m.assume(z3.Or(self.page == 0, self.page & (self.page - 1) != 0))
                m.cover("page-size-invalid")
            else:
                self.page = m.bv(1 << k)
        return self.page

    def pow2(self):
        m, p = self.m, self.P()
        return z3.And(p != 0, p & (p - 1) == 0)

    def up(self, x):
        p = self.P()
        return (x + p - 1) & ~(p - 1)

    def mmap(self, args, dty):
        m = self.m
        addr, ln, prot, flags, fd, off = [a.e for a in args]
        m.rec.trusted.add("mmap contract (fails, or returns a fresh page-aligned mapping at or above 64 KiB (vm.mmap_min_addr) and below the last page)")
        m.assume(self.pow2())
        ok = m.choose(["ok", "fail"], "mmap")
        m.ob("os/mmap-anonymous", z3.And(flags & MAP_ANON == MAP_ANON, flags & MAP_FIXED == 0, flags & 3 == MAP_PRIVATE), "flags of mmap")
        if ok == "fail" or m.solver.proves(ln != 0) != "yes" and m.decide(ln == 0, "mmap len"):
            self.failed = True
            m.cover("mmap-fails")
            return I(dty.core, m.bv((1 << m.W) - 1))
        n = len(self.maps) + 1
        p = m.sym(f"map{n}")
        P = self.P()
        full = self.up(ln)
        m.assume(z3.UGE(p, 1 << 16))
        m.assume(p & (P - 1) == 0)
        m.assume(z3.UGE(full, ln))
        m.assume(z3.ULE(p, m.bv(0) - full - P))
        m.assume(z3.ULE(full, m.bv(0) - P - P))
        m.assume(z3.ULT(p, p + full))
        for o in self.maps:
            if o.live:
                m.assume(z3.Or(z3.ULE(o.hi, p), z3.ULE(p + full, o.lo)))
        mp = Mapping(n, p, ln, simp(p + full), prot)
        r = Region(f"map{n}", p, simp(p + full), "stack")
        r.coexist = set()
        r.limit = p
        r.mapping = mp
        m.regions.append(r)
        m.bind(p, r)
        mp.region = r
        self.maps.append(mp)
        m.cover("mmap")
        return I(dty.core, p)

    def find(self, addr):
        m = self.m
        r = m.region_of(addr)
        for mp in self.maps:
            if mp.region is r:
                return mp
        return None

    def mprotect(self, args, dty):
        m = self.m
        addr, ln, prot = [a.e for a in args]
        m.rec.trusted.add("mprotect contract (fails, or sets the protection of all pages in the range)")
        mp = self.find(addr)
        P = self.P()
        hi = addr + self.up(ln)
        legal = z3.BoolVal(False) if mp is None or not mp.live else z3.And(
            addr & (P - 1) == 0, z3.UGE(self.up(ln), ln), z3.UGE(addr, mp.lo), z3.ULE(addr, mp.hi), z3.ULE(self.up(ln), mp.hi - addr))
        m.ob("os/mprotect-range", legal, "mprotect outside the new mapping")
        r = m.choose([0, -1], "mprotect")
        if r == 0:
            mp.prots.append((addr, simp(hi), prot))
            m.cover("mprotect")
        else:
            self.failed = True
            m.cover("mprotect-fails")
        return I(dty.core, m.bv(r & 0xffffffff, 32))

    def munmap(self, args, dty):
        m = self.m
        addr, ln = [a.e for a in args]
        m.rec.trusted.add("munmap contract (unmaps the range)")
        mp = self.find(addr)
        m.ob("os/unmap-known", mp is not None, f"munmap of {simp(addr)}, which is not a mapping made here")
        m.ob("os/unmap-once", mp.live, f"{mp} is unmapped twice")
        m.ob("os/unmap-exact", z3.And(addr == mp.lo, self.up(ln) == mp.hi - mp.lo, z3.UGE(self.up(ln), ln)), "munmap of another range than the mapping")
        mp.live = False
        if getattr(mp, "on_unmap", None):
            mp.on_unmap()
        vg = m.hooks.get("vg")
        if vg is not None:
            vg.unmapped(mp)
        m.kill_region(mp.region)
        m.cover("munmap")
        return I(dty.core, m.bv(0, 32))

    def prot_at(self, mp, x):
        e = z3.BitVecVal(0, 32)
        for lo, hi, p in mp.prots:
            e = z3.If(z3.And(z3.UGE(x, lo), z3.ULT(x, hi)), p, e)
        return e


class WinOS(OS):
    """VirtualAlloc / VirtualFree / GetSystemInfo / SetThreadStackGuarantee with any page size up
    to the allocation granularity, any guarantee, any placement, any failure."""
    RW, GUARD = 4, 0x100
    GRAN = 16

    def __init__(self, m):
        super().__init__(m)
        self.guarantee = None

    def call(self, m, name, args, dty):
        h = getattr(self, "c_" + name, None)
        if h is None:
            raise Unsupported(f"foreign function {name}")
        return h(args, dty)

    def P(self):
        m = self.m
        if self.page is None:
            k = m.choose(["invalid"] + list(range(12, self.GRAN + 1)), "page size")
            if k == "invalid":
                self.page = m.sym("pagesize", 32)
                m.assume(z3.Or(self.page == 0, self.page & (self.page - 1) != 0))
                self.page = self.page if m.W == 32 else simp(z3.ZeroExt(m.W - 32, self.page))
                m.cover("page-size-invalid")
            else:
                self.page = m.bv(1 << k)
        return self.page

    def G(self):
        """the guarantee of the running thread, in whole pages and at least one"""
        m = self.m
        if self.guarantee is None:
            m.rec.trusted.add("SetThreadStackGuarantee contract (a size of 0 queries the guarantee, which is smaller than 2^30, or fails and leaves 0)")
            g = m.sym("guarantee", 32)
            m.assume(z3.ULT(g, 1 << 30))
            self.guarantee = g
        g = self.guarantee if m.W == 32 else z3.ZeroExt(m.W - 32, self.guarantee)
        P = self.P()
        return simp(self.up(z3.If(z3.ULT(g, P), P, g)))

    def accessible(self, mp, addr, size):
        ok = lambda x: self.prot_at(mp, x) == self.RW
        return z3.Or(size == 0, z3.And(ok(addr), ok(addr + size - 1)))

    def c_GetSystemInfo(self, args, dty):
        m = self.m
        m.rec.trusted.add("GetSystemInfo contract (the same page size every time, a power of two from 4096 up to the allocation granularity of 65536)")
        ty = args[0].ty.to
        lv = m.deref(args[0], ty)
        c = ty.core
        i = [x["name"] for x in c.j["variants"][0]["fields"]].index("dwPageSize")
        f = c.fields()[i]
        m.write(m.field(lv, c, 0, i, f), f, I(f.core, simp(z3.Extract(31, 0, self.P()))))
        return m.unit_of(dty)

    def c_SetThreadStackGuarantee(self, args, dty):
        m = self.m
        ty = args[0].ty.to
        lv = m.deref(args[0], ty)
        m.ob("os/guarantee-unchanged", m.read(lv, ty).e == 0, "the stack guarantee of the thread is changed")
        self.G()
        m.write(lv, ty, I(ty.core, self.guarantee))
        return I(dty.core, m.sym("bool", 32))

    def c_VirtualAlloc(self, args, dty):
        m = self.m
        addr, ln, how, prot = [simp(a.e) for a in args]
        m.rec.trusted.add("VirtualAlloc contract (fails, reserves a fresh range aligned to 64 KiB at or above 64 KiB, or commits the pages of a range inside a reservation)")
        P = self.P()
        m.assume(self.pow2())
        ok = m.choose(["ok", "fail"], "VirtualAlloc")
        if not z3.is_bv_value(how) or how.as_long() not in (0x1000, 0x2000):
            m.fail("os/alloc-type", f"allocation type {how}")
        m.ob("os/alloc-length", ln != 0, "VirtualAlloc of zero bytes")
        if how.as_long() == 0x2000:
            m.ob("os/alloc-anywhere", addr == 0, "the address of the reservation is fixed")
            if ok == "fail":
                self.failed = True
                m.cover("reserve-fails")
                return I(dty.core, m.bv(0))
            n = len(self.maps) + 1
            p = m.sym(f"map{n}")
            full = self.up(ln)
            m.assume(z3.UGE(p, 1 << 16))
            m.assume(p & 0xffff == 0)
            m.assume(z3.UGE(full, ln))
            m.assume(z3.ULE(p, m.bv(0) - full - P))
            m.assume(z3.ULE(full, m.bv(0) - P - P))
            m.assume(z3.ULT(p, p + full))
            for o in self.maps:
                if o.live:
                    m.assume(z3.Or(z3.ULE(o.hi, p), z3.ULE(p + full, o.lo)))
            mp = Mapping(n, p, ln, simp(p + full), z3.BitVecVal(0, 32))
            r = Region(f"map{n}", p, simp(p + full), "stack")
            r.coexist = set()
            r.limit = p
            r.mapping = mp
            m.regions.append(r)
            m.bind(p, r)
            mp.region = r
            self.maps.append(mp)
            m.cover("reserve")
            return I(dty.core, p)
        mp = self.find(addr)
        m.ob("os/commit-known", mp is not None and mp.live, "pages outside any reservation are committed")
        hi = self.up(addr + ln)
        m.ob("os/commit-range", z3.And(z3.ULE(ln, m.bv(0) - addr - P), z3.UGE(addr, mp.lo), z3.ULE(hi, mp.hi)), "pages outside the reservation are committed")
        if ok == "fail":
            self.failed = True
            m.cover("commit-fails")
            return I(dty.core, m.bv(0))
        lo = simp(addr & ~(P - 1))
        mp.prots.append((lo, simp(hi), prot))
        m.cover("commit")
        return I(dty.core, lo)

    def c_VirtualFree(self, args, dty):
        m = self.m
        addr, ln, how = [a.e for a in args]
        m.rec.trusted.add("VirtualFree contract (MEM_RELEASE releases the whole reservation)")
        mp = self.find(addr)
        m.ob("os/unmap-known", mp is not None, f"VirtualFree of {simp(addr)}, which was not reserved here")
        m.ob("os/unmap-once", mp.live, f"{mp} is released twice")
        m.ob("os/unmap-exact", z3.And(addr == mp.lo, ln == 0, how == 0x8000), "VirtualFree does not release the whole reservation")
        mp.live = False
        if getattr(mp, "on_unmap", None):
            mp.on_unmap()
        m.kill_region(mp.region)
        m.cover("munmap")
        return I(dty.core, m.bv(1, 32))


class Valgrind:
    """Client requests: outside Valgrind the default is returned; inside, STACK_REGISTER
    returns a fresh id and STACK_DEREGISTER forgets it."""

    def __init__(self, m, mode):
        self.m, self.mode = m, mode
        self.regs = []       # [id, lo, hi, live]
        self.requests = []
        m.hooks["valgrind"] = self.request
        m.hooks["vg"] = self

    def request(self, m, ax, dx):
        wt = m.prog.T("u64" if m.pb == 8 else "u32")
        args = []
        for k in range(6):
            lv = m.resolve(simp(ax + m.bv(k * m.pb)), wt)
            args.append(m.read(lv, wt).e)
        code = simp(args[0])
        self.requests.append(args)
        if not z3.is_bv_value(code):
            m.fail("valgrind/request", f"request code {code}")
        code = code.as_long()
        m.ob("valgrind/request", code in (0x1501, 0x1502), f"client request {code:#x}")
        m.ob("valgrind/default", dx == 0, "the default result of the request must be 0")
        if code == 0x1501:
            idv = m.sym("vgid") if self.mode == "valgrind" else None
            e = [idv if idv is not None else dx, args[1], args[2], True]
            self.regs.append(e)
            m.cover("vg-register")
            return idv
        live = [e for e in self.regs if e[3]]
        hit = [e for e in live if m.solver.proves(args[1] == e[0]) == "yes"]
        m.ob("valgrind/deregister", len(hit) >= 1, f"deregistration of {simp(args[1])}, registered: {[str(e[0]) for e in live]}")
        hit[-1][3] = False
        m.cover("vg-deregister")
        return None

    def unmapped(self, mp):
        m = self.m
        for e in self.regs:
            if e[3]:
                m.ob("valgrind/before-unmap", z3.Or(e[1] != mp.lo), "memory unmapped while it is still registered with Valgrind")
