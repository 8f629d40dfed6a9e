"""Loading of the MIR dump produced by driver/main.rs."""
import functools
import json
import re

FORCE_STRIP = ("core::mem::manually_drop::ManuallyDrop", "core::ptr::Unaligned",
               "core::panic::unwind_safe::AssertUnwindSafe", "std::panic::AssertUnwindSafe")


class Ty:
    __slots__ = ("prog", "id", "j", "kind", "str", "_core", "_zst")

    def __init__(self, prog, id, j):
        self.prog, self.id, self.j = prog, id, j
        self.kind = j.get("kind", "other")
        self.str = j["str"]
        self._core = None
        self._zst = None

    def __repr__(self):
        return f"<{self.str}>"

    @property
    def path(self):
        return self.j.get("path")

    @property
    def size(self):
        return self.j.get("size")

    @property
    def align(self):
        return self.j.get("align")

    @property
    def is_box(self):
        return bool(self.j.get("is_box"))

    @property
    def signed(self):
        return bool(self.j.get("signed"))

    def args(self):
        return [self.prog.ty(a) if isinstance(a, int) else a for a in self.j.get("args", [])]

    @property
    def to(self):
        """pointee type of ref/ptr (through Box and transparent wrappers)."""
        if "to" in self.j:
            return self.prog.ty(self.j["to"])
        if self.is_box:
            return self.args()[0]
        return None

    def nvariants(self):
        return len(self.j.get("variants", []))

    def fields(self, variant=0):
        k = self.kind
        if k == "adt":
            vs = self.j["variants"]
            if variant < 0:
                variant = 0
            return [self.prog.ty(f["ty"]) for f in vs[variant]["fields"]]
        if k in ("tuple", "closure"):
            return [self.prog.ty(f) for f in self.j["fields"]]
        if k == "array":
            return [self.prog.ty(self.j["elem"])] * (self.j["len"] or 0)
        return []

    @property
    def is_adt(self):
        return self.kind == "adt"

    @property
    def adt(self):
        return self.j.get("adt") if self.kind == "adt" else None

    @property
    def zst(self):
        """statically known to be zero sized"""
        if self._zst is None:
            k = self.kind
            if self.j.get("size") is not None:
                self._zst = self.j["size"] == 0
            elif k == "fndef":
                self._zst = True
            elif k == "adt" and self.j.get("is_phantom"):
                self._zst = True
            elif k == "adt" and self.adt == "struct":
                self._zst = all(f.zst for f in self.fields())
            elif k in ("tuple", "closure"):
                self._zst = all(f.zst for f in self.fields())
            elif k == "array":
                self._zst = self.j.get("len") == 0 or self.prog.ty(self.j["elem"]).zst
            else:
                self._zst = False
        return self._zst

    def _strip(self):
        if self.kind == "pat":
            return self.prog.ty(self.j["base"])
        if self.kind != "adt":
            return None
        if self.path.endswith("maybe_uninit::MaybeUninit"):
            return self.fields()[1]
        if self.is_box:
            return self.fields()[0]
        if self.adt == "struct" and (self.j.get("repr_transparent") or self.path in FORCE_STRIP):
            nz = [f for f in self.fields() if not f.zst]
            if len(nz) == 1:
                return nz[0]
        return None

    def strip_field(self):
        """index of the field that carries the whole representation, or None"""
        if self.kind != "adt":
            return None
        if self.path.endswith("maybe_uninit::MaybeUninit"):
            return 1
        if self.is_box:
            return 0
        if self.adt == "struct" and (self.j.get("repr_transparent") or self.path in FORCE_STRIP):
            nz = [i for i, f in enumerate(self.fields()) if not f.zst]
            if len(nz) == 1:
                return nz[0]
        return None

    @property
    def core(self):
        if self._core is None:
            c = self
            while True:
                n = c._strip()
                if n is None:
                    break
                c = n
            self._core = c
        return self._core

    @property
    def key(self):
        return canon(self.core.str)

    @property
    def is_ptr(self):
        return self.core.kind in ("ptr", "ref", "fnptr")

    @property
    def is_scalar(self):
        return self.core.kind in ("ptr", "ref", "fnptr", "int", "bool", "char")

    @property
    def unsized(self):
        return self.kind in ("dyn", "slice", "str")


_life = re.compile(r"'[a-z_]\w*\s*")


@functools.lru_cache(None)
def canon(s):
    s = _life.sub("", s)
    return s


class Inst:
    __slots__ = ("prog", "id", "j", "path", "body")

    def __init__(self, prog, id, j):
        self.prog, self.id, self.j = prog, id, j
        self.path = j["path"]
        self.body = j.get("body")

    def __repr__(self):
        return f"inst#{self.id}:{self.path}"

    @property
    def name(self):
        return strip_generics(self.path)

    @property
    def abi(self):
        return self.j.get("abi", "Rust")


@functools.lru_cache(None)
def strip_generics(p):
    out, d, i = [], 0, 0
    if p.startswith("<"):
        return p
    while i < len(p):
        c = p[i]
        if p.startswith("::<", i) and d == 0:
            d += 1
            i += 3
            continue
        if d:
            if c == "<":
                d += 1
            elif c == ">" and p[i - 1] != "-":
                d -= 1
        else:
            out.append(c)
        i += 1
    return "".join(out)


class Prog:
    """One root of the dump."""

    def __init__(self, dump, root):
        self.dump = dump
        r = [x for x in dump["roots"] if x["root"].split("::")[-1] == root]
        if not r:
            raise KeyError(root)
        r = r[0]
        self.types = [Ty(self, i, t) for i, t in enumerate(r["types"])]
        self.insts = [Inst(self, i, t) for i, t in enumerate(r["insts"])]
        self.consts = r["consts"]
        self.allocs = {k: v for k, v in r["allocs"]}
        self.root = self.insts[r["id"]]
        self.pb = dump["ptr_bytes"]
        self.W = self.pb * 8
        self.target = dump["target"]
        self.by_str = {}
        for t in self.types:
            self.by_str.setdefault(canon(t.str), t)
        self.api = {}
        self._scan_api()

    def ty(self, i):
        return self.types[i]

    def T(self, s):
        return self.by_str[canon(s)]

    def _scan_api(self):
        for b in self.root.body["blocks"]:
            t = b["t"]
            if t["k"] != "call" or t["func"]["k"] != "const" or t["func"]["c"].get("k") != "fn":
                continue
            cal = t["func"]["c"]["callee"]
            nm = strip_generics(cal["path"])
            if nm.endswith("::keep"):
                for a in t["args"]:
                    c = a.get("c")
                    if c and c.get("k") == "fn":
                        cc = c["callee"]
                        self.api[self._api_key(cc)] = cc
            elif not nm.endswith("::any"):
                self.api[self._api_key(cal)] = cal

    @staticmethod
    def _api_key(cc):
        p = cc["path"]
        if p.startswith("<"):
            return p
        return "::".join(strip_generics(p).split("::")[-2:])


def load(path):
    return json.load(open(path))
