"""Contracts of the functions that are not verified: intrinsics, std / alloc internals,
libc. Everything used is recorded in Recorder.trusted and reported as trusted base."""
import z3
from .core import *
from .mir import canon, Ty


class BuiltinMixin:
    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, name, args, atys, targs, dty):
        self.rec.trusted.add("intrinsic " + name)
        T = targs[0] if targs and isinstance(targs[0], Ty) else None
        r = self._intrinsic(name, args, atys, T, dty)
        if r is not NotImplemented:
            self.ret(r)

    def zero_value(self, ty):
        """the value whose bytes are all zero"""
        c = ty.core
        if c.is_scalar and c.kind not in ("ref", "fnptr"):
            return I(c, self.bv(0, c.size * 8))
        if c.kind in ("tuple", "array") or c.kind == "adt" and c.adt == "struct":
            return Agg(c, 0, [self.unit_of(f) if f.zst else self.zero_value(f) for f in c.fields()])
        if c.kind == "adt" and c.adt == "union":
            fs = c.fields()
            i = max(range(len(fs)), key=lambda k: fs[k].size or 0)
            return Un(c, i, self.zero_value(fs[i]))
        raise Unsupported(f"zeroed {ty.str}")

    def _intrinsic(self, name, args, atys, T, dty):
        if name == "size_of":
            return I(self.usize, self.size_of(T))
        if name in ("align_of", "min_align_of", "pref_align_of"):
            return I(self.usize, self.align_of(T))
        if name in ("size_of_val", "align_of_val", "min_align_of_val"):
            ty = T
            p = args[0]
            if T.unsized:
                if isinstance(p, I) and p.lv is not None:
                    ty = p.lv.obj.ty
                else:
                    raise Unsupported("size_of_val of unsized value")
            return I(self.usize, self.size_of(ty) if name == "size_of_val" else self.align_of(ty))
        if name == "needs_drop":
            nd = T.j.get("needs_drop", True)
            if T.kind in ("param", "alias") or nd:
                return self.boolv(self.decide(z3.Bool(f"needs_drop<{T.key}>"), f"needs_drop<{T.key}>") if T.kind == "param" else bool(nd))
            return self.boolv(False)
        if name == "ctpop":
            x = args[0].e
            w = x.size()
            pw = z3.And(x != 0, x & (x - 1) == 0)
            # only the comparison with 1 is ever needed symbolically
            c = simp(x)
            if z3.is_bv_value(c):
                return I(dty.core, z3.BitVecVal(bin(c.as_long()).count("1"), dty.core.size * 8))
            s = self.sym("popcnt", dty.core.size * 8)
            self.assume((s == 1) == pw)
            self.assume((s == 0) == (x == 0))
            self.assume(z3.ULE(s, w))
            return I(dty.core, s)
        if name == "type_id":
            return Tok(dty.core if dty else None, "typeid", {"type": canon(T.str)})
        if name == "type_id_eq":
            return NotImplemented if self._unsup("type_id_eq") else None
        if name in ("likely", "unlikely", "black_box"):
            return args[0]
        if name in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "forget"):
            return self.unit_of(dty) if dty else None
        if name == "abort":
            self.abort("intrinsics::abort")
        if name in ("unreachable",):
            self.fail("ub/unreachable", "unreachable()")
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul",
                    "unchecked_shl", "unchecked_shr", "unchecked_div", "unchecked_rem", "exact_div"):
            op, k = name.split("_")
            opn = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "div": "Div", "rem": "Rem"}[k]
            if op == "unchecked" and k in ("add", "sub", "mul"):
                opn += "Unchecked"
            if name == "exact_div":
                opn = "Div"
            return self.binop(opn, args[0], args[1], atys[0], atys[0], atys[1])
        if name in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
            return self.binop(name.split("_")[0].capitalize() + "WithOverflow", args[0], args[1], dty, atys[0], atys[1])
        if name in ("saturating_add", "saturating_sub"):
            x, y = args[0].e, args[1].e
            if atys[0].core.signed:
                raise Unsupported("signed saturating op")
            if name == "saturating_add":
                r = z3.If(z3.ULT(x + y, x), z3.BitVecVal(-1, x.size()), x + y)
            else:
                r = z3.If(z3.ULT(x, y), z3.BitVecVal(0, x.size()), x - y)
            return I(atys[0].core, simp(r))
        if name in ("rotate_left", "rotate_right"):
            x, n = args[0].e, args[1].e
            n = z3.ZeroExt(x.size() - n.size(), n) if n.size() < x.size() else n
            return I(atys[0].core, simp(z3.RotateLeft(x, n) if name.endswith("left") else z3.RotateRight(x, n)))
        if name in ("offset", "arith_offset", "ptr_offset"):
            return self.binop("Offset", args[0], args[1], atys[0], atys[0], atys[1])
        if name in ("ptr_offset_from", "ptr_offset_from_unsigned"):
            d = args[0].e - args[1].e
            s = self.size_of(atys[0].to)
            if z3.is_bv_value(simp(s)) and simp(s).as_long() == 1:
                return I(dty.core, simp(d))
            return I(dty.core, simp(z3.UDiv(d, s)))
        if name == "ptr_mask":
            return I(atys[0].core, simp(args[0].e & args[1].e))
        if name in ("read_via_copy", "volatile_load", "unaligned_volatile_load"):
            return self.read(self.deref(args[0], atys[0].to), atys[0].to)
        if name == "atomic_load":
            return self.read(self.deref(args[0], atys[0].to), atys[0].to)
        if name == "atomic_store":
            self.write(self.deref(args[0], atys[0].to), atys[0].to, args[1])
            return self.unit_of(dty) if dty else None
        if name in ("write_via_move", "volatile_store", "unaligned_volatile_store"):
            self.write(self.deref(args[0], atys[0].to), atys[0].to, args[1])
            return self.unit_of(dty) if dty else None
        if name in ("copy_nonoverlapping", "copy"):
            self.copy_nonoverlapping(*args)
            return self.unit_of(dty) if dty else None
        if name in ("typed_swap_nonoverlapping",):
            a, b = (self.deref(x, T) for x in args)
            x, y = self.read(a, T), self.read(b, T)
            self.write(a, T, y)
            self.write(b, T, x)
            return self.unit_of(dty) if dty else None
        if name in ("transmute", "transmute_unchecked"):
            return self.transmute(args[0], atys[0], dty)
        if name == "const_eval_select":
            tup, _c, rt = args
            self.call_value(rt, list(tup.fields) if isinstance(tup, Agg) else [])
            return NotImplemented
        if name in ("is_val_statically_known",):
            return self.boolv(False)
        if name in ("ub_checks", "contract_checks", "overflow_checks"):
            return self.boolv(bool(self.prog.dump.get("debug_assertions")))
        if name == "discriminant_value":
            ty = atys[0].to
            return self.discriminant(self.read(self.deref(args[0], ty), ty), ty, dty)
        if name == "ptr_metadata":
            return self.unop("PtrMetadata", args[0], dty)
        if name in ("cttz", "ctlz", "cttz_nonzero", "ctlz_nonzero"):
            x = args[0].e
            w = x.size()
            r = z3.BitVecVal(w, 32)
            rng = range(w - 1, -1, -1) if name.startswith("cttz") else range(w)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i if name.startswith("cttz") else w - 1 - i, 32), r)
            dw = dty.core.size * 8
            return I(dty.core, simp(r if dw == 32 else z3.ZeroExt(dw - 32, r) if dw > 32 else z3.Extract(dw - 1, 0, r)))
        if name in ("integer_max", "integer_min"):
            x, y = args[0].e, args[1].e
            lt = x < y if atys[0].core.signed else z3.ULT(x, y)
            return I(atys[0].core, simp(z3.If(lt, y, x) if name.endswith("max") else z3.If(lt, x, y)))
        if name == "disjoint_bitor":
            return I(atys[0].core, simp(args[0].e | args[1].e))
        if name in ("select_unpredictable",):
            return args[1] if self.decide(self.truth(args[0]), name) else args[2]
        if name == "assume":
            self.ob("ub/assume", self.truth(args[0]), "assume() of a condition that can be false")
            return self.unit_of(dty) if dty else None
        if name in ("caller_location",):
            return I(dty.core, self.sym("location"))
        if name == "three_way_compare":
            raise Unsupported("three_way_compare")
        if name == "write_bytes":
            b, n = simp(args[1].e), simp(args[2].e)
            if not (z3.is_bv_value(b) and z3.is_bv_value(n) and b.as_long() == 0 and n.as_long() == 1):
                raise Unsupported("write_bytes")
            ty = atys[0].to
            self.write(self.deref(args[0], ty), ty, self.zero_value(ty))
            return self.unit_of(dty) if dty else None
        raise Unsupported(f"intrinsic {name}")

    def _unsup(self, what):
        raise Unsupported(what)

    # ------------------------------------------------------------ library functions modelled by contract
    def builtin(self, name, inst, args, atys, targs, dty):
        T = [t for t in targs if isinstance(t, Ty)]
        if name.endswith("::any::TypeId::of"):
            self.rec.trusted.add("core::any::TypeId::of: distinct for distinct types")
            self.ret(Tok(dty.core if dty else None, "typeid", {"type": canon(T[0].str)}))
            return True
        if name.startswith("<(dyn core::any::Any") and name.endswith("::is"):
            self.rec.trusted.add("core::any: is::<T>() iff the concrete type is T")
            self.ret(self.boolv(self.any_is(args[0], T[-1])))
            return True
        if name.endswith("::precondition_check") and "copy" in name and len(args) > 1:
            sep = self.separate_objects(args[0], args[1])
            if sep and len(args) == 5 and simp(args[3].e).eq(self.bv(1)):
                # bytes of two objects: aligned and not overlapping; the copy itself is checked for bounds
                return self.ret(self.unit_of(dty)) or True
            return False
        if inst.j.get("foreign"):
            h = self.hooks.get("foreign")
            if name.endswith("::_resetstkoflw"):
                self.rec.trusted.add("_resetstkoflw() succeeds and restores the guard page of the current stack")
                self.cur.region.guard_reset = True
                return self.ret(I(dty.core, self.bv(1, 32))) or True
            self.rec.trusted.add("extern " + name.split("::")[-1])
            if h is None:
                raise Unsupported(f"foreign function {name}")
            v = h(self, name.split("::")[-1], args, dty)
            self.ret(v)
            return True
        if name == "core::mem::forget":
            # nothing happens to the value: it is leaked
            self.forget_value(args[0])
            self.ret(self.unit_of(dty) if dty else None)
            return True
        return False

    def forget_value(self, v):
        if isinstance(v, Tok):
            v.info["forgotten"] = True
        elif isinstance(v, Agg):
            for f in v.fields:
                self.forget_value(f)

    def any_is(self, p, T):
        if not isinstance(p, I) or not p.meta or p.meta[0] != "vt":
            raise Unsupported("type test on an unknown object")
        self.live_payload(p)
        name = canon(T.str)
        if p.meta[1] == name:
            return True
        if not p.meta[1].startswith("user:") or p.lv is None or "ForcedUnwind" in name:
            return False
        # a payload of the environment: of any type the library could name
        o = p.lv.obj
        info = self.__dict__.setdefault("paytypes", {}).setdefault(id(o), {})
        if name not in info:
            info[name] = not any(info.values()) and self.choose([False, True], f"{o.name} is a {name}")
            if info[name]:
                o.ty = T
                if isinstance(o.val, Tok):
                    o.val.ty = T.core
        return info[name]

    def live_payload(self, p):
        if p.lv is not None:
            self.live(p.lv.obj, "type test")

    # ------------------------------------------------------------ opaque functions
    def opaque(self, name, inst, args, atys, targs, dty):
        short = name
        self.rec.trusted.add("contract of " + name)
        if name.endswith("panic::catch_unwind") or name.endswith("panicking::catch_unwind"):
            c = dty.core if dty is not None else self.prog.ty(inst.j["sig"]["output"]).core
            wrapped = []

            def ok(v):
                self.ret(Agg(c, 0, [v if v is not None else self.unit_of(c.fields(0)[0])]))

            def err(p):
                bt = c.fields(1)[0]
                self.ret(Agg(c, 1, [p.retype(bt.core)]))
            self.push(CbF(ok, err))
            return self.invoke(args[0], atys[0], [])
        if name.endswith("panic::resume_unwind"):
            p = args[0]
            if not isinstance(p, I) or not self.is_boxptr(p):
                self.fail("value/garbage", f"resume_unwind({p})")
            o = p.lv.obj
            self.ob("own/once", o.live and not o.taken, f"panic payload {o.name} resumed although it was already consumed")
            return self.unwind(I(None, p._e, p.lv, p.meta, None, p.mk))
        if name.endswith("::Box::new"):
            ty = atys[0]
            o = self.newobj("box", ty, args[0], "box", seg=None)
            o.seg = None
            self.boxes.append(o)
            return self.ret(I(dty.core, None, LV(o, (), ty), None, mk=self.lv_addr))
        if name.endswith("::Box::from_raw") or name.endswith("::Box::into_raw") or name.endswith("Box::leak") or name.endswith("BoxRaw::as_ptr") or name.endswith("BoxRaw::cast"):
            return self.ret(args[0].retype(dty.core) if isinstance(args[0], I) else args[0])
        if name.endswith("::downcast") and ("Any" in name or "boxed" in name):
            T = [t for t in targs if isinstance(t, Ty)][-1]
            c = dty.core
            p = args[0]
            if self.any_is(p, T):
                return self.ret(Agg(c, 0, [I(c.fields(0)[0].core, p._e, p.lv, None, None, p.mk)]))
            return self.ret(Agg(c, 1, [p]))
        if "::panicking::panic_nounwind" in name or name.endswith("process::abort") or name.endswith("panic_in_cleanup") or name.endswith("panic_cannot_unwind"):
            self.abort(name.split("::")[-1])
        if "::panicking::" in name or name.endswith("begin_panic") or name.endswith("unwrap_failed") or name.endswith("handle_alloc_error"):
            return self.lib_panic(self.panic_msg(name, args))
        if "core::fmt::" in name or name.startswith("core::fmt"):
            return self.ret(Tok(dty.core, "fmt", {"args": args}))
        if name.endswith("last_os_error"):
            return self.ret(self.tok(dty, "os_error", err=True, weak=True))
        if name.endswith("std::process::exit"):
            self.abort("exit")
        if name.endswith("thread::panicking"):
            return self.ret(self.boolv(self.decide(z3.Bool("thread_panicking"), "panicking")))
        raise Unsupported(f"call of {name}")

    def panic_msg(self, name, args):
        for a in args:
            if isinstance(a, Tok) and a.name == "fmt":
                for x in a.info.get("args", []):
                    m = self.str_of(x)
                    if m:
                        return m
            m = self.str_of(a)
            if m:
                return m
        return name.split("::")[-1]

    def str_of(self, v):
        if isinstance(v, I) and v.lv is not None and v.lv.obj.name.startswith("const"):
            a = self.prog.allocs.get(int(v.lv.obj.name[5:]))
            if a and a["kind"] == "mem":
                b = bytes.fromhex(a["bytes"])
                try:
                    return b.decode()
                except UnicodeDecodeError:
                    return None
        return None

    # ------------------------------------------------------------ trait methods of generic parameters
    def unresolved(self, name, cal, args, atys, targs, dty):
        last = name.split("::")[-1]
        if last == "call_once" and "FnOnce" in name:
            tup = args[1]
            return self.invoke(args[0], atys[0], list(tup.fields) if isinstance(tup, Agg) else [])
        if last in ("teb_fields", "update_teb_fields") and "Stack" in name:
            v = self.read(self.deref(args[0], atys[0].to), atys[0].to)
            if not isinstance(v, Tok):
                self.fail("value/garbage", f"Stack::{last} called on {v}")
            self.ob("own/use-after-drop", v.used is None, f"Stack::{last} called on {v.name} after it was {v.used}")
            if last == "teb_fields":
                fs = {"StackBase": "base", "StackLimit": "limit", "DeallocationStack": "dealloc", "GuaranteedStackBytes": "guar"}
                return self.ret(Agg(dty.core, 0, [I(self.usize, v.info["teb"][fs[x["name"]]]) for x in dty.core.j["variants"][0]["fields"]]))
            for k, a in zip(("limit", "guar"), args[1:]):
                if not isinstance(a, I):
                    self.fail("teb/remembered", f"the stack is told {a}")
                v.info["teb"][k] = a.e
            return self.ret(self.unit_of(dty))
        if last in ("base", "limit") and "Stack" in name:
            st = args[0]
            to = atys[0].to
            if to.zst:
                raise Unsupported("zero-sized stack type")
            v = self.read(self.deref(st, to), to)
            if not isinstance(v, Tok):
                self.fail("value/garbage", f"Stack::{last} called on {v}")
            self.ob("own/use-after-drop", v.used is None, f"Stack::{last} called on {v.name} after it was {v.used}")
            r = v.info["region"]
            e = r.hi if last == "base" else r.limit
            v.info.setdefault("calls", []).append(last)
            return self.ret(self.from_word(I(self.usize, e), dty.core))
        raise Unsupported(f"unresolved call {name}")

    def virtual(self, cal, args, atys, targs, dty):
        m = cal["method"]
        if m.endswith("Any::type_id"):
            p = args[0]
            self.live_payload(p)
            return self.ret(Tok(dty.core, "typeid", {"type": p.meta[1]}))
        raise Unsupported(f"virtual call {m}")


class CbF:
    def __init__(self, ok, err):
        self.ok, self.err = ok, err

    def on_result(self, m, v):
        m.pop()
        self.ok(v)

    def on_unwind(self, m, payload):
        m.pop()
        self.err(payload)
        return True

    def kill(self, m):
        pass

    def step(self, m):
        raise Unsupported("step of a contract frame")

    def __repr__(self):
        return "catch_unwind"
