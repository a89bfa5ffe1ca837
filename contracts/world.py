"""Runs the code generated for a model (contracts.e2e) with a host and schemes of our own.

The schemes record how they are called; what a call must look like and what it must
leave behind is computed here from the model alone (never from the generated code).
"""
import numpy as np
from contracts import fgen

KINDS = {"kind_phys": "float64", "kind_s": "float32"}
STATES = {"register": ("uninitialized", "uninitialized"), "initialize": ("uninitialized", "initialized"),
          "timestep_initial": ("initialized", "in_time_step"), "run": ("in_time_step", "in_time_step"),
          "timestep_final": ("in_time_step", "initialized"), "finalize": ("initialized", "uninitialized")}
SUFFIX = {"register": "register", "initialize": "init", "timestep_initial": "timestep_init", "run": "run",
          "timestep_final": "timestep_final", "finalize": "finalize"}
# units: value in the unit = (value in the first of the row) * factor + offset
UNITS = {"m": ("m", 1.0, 0.0), "km": ("m", 1e-3, 0.0), "Pa": ("Pa", 1.0, 0.0), "hPa": ("Pa", 1e-2, 0.0),
         "K": ("K", 1.0, 0.0), "C": ("K", 1.0, -273.15)}


def convert(x, a, b):
    """x, in units a, in units b"""
    if a == b:
        return np.array(x)
    (_, fa, oa), (_, fb, ob) = UNITS[a], UNITS[b]
    return (np.asarray(x, dtype="float64") - oa) / fa * fb + ob


class Broken(Exception):
    """what the generated code does is not what the model asks for"""


def need(ok, what, *more):
    if not ok:
        raise Broken(what + (": " + ", ".join(str(m) for m in more) if more else ""))


def near(a, b, single):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f":
        return bool(np.allclose(a, b, rtol=2e-4 if single else 1e-9, atol=2e-2 if single else 1e-7, equal_nan=True))
    return bool(np.all(a == b))


class World:
    def __init__(self, model, result, rand, ncol=5, nlev=3):
        """rand(n): a number in 0..n-1"""
        self.model, self.rand = model, rand
        self.n = {"horizontal_dimension": ncol, "vertical_layer_dimension": nlev}
        self.slots, self.std = {}, {}
        self.host_std = {}
        for a in model.hostvars:
            self.slots[a.local.lower()] = self.make(a)
        texts = [t for f, t in sorted(result.files.items()) if f.endswith(".F90") and "_cap" in f]
        self.m = fgen.Machine(texts, self.outer, KINDS, self.scheme)
        self.cap = model.hostname + "_ccpp_cap"
        self.state = {s: "uninitialized" for s, _ in model.suites}
        self.events, self.fail_at, self.count = [], None, 0
        self.dynamic = {}                 # suite variables: standard name -> value, or None
        self.now = None

    # host data
    def number(self, a):
        if a.type == "integer":
            return self.rand(50)
        if a.type == "logical":
            return bool(self.rand(2))
        if a.type == "character":
            return "text%d" % self.rand(9)
        return (self.rand(4000) + 8) / 8.0 * (1e-3 if a.units in ("km",) else 1.0)

    def array(self, a, shape):
        t = np.dtype(KINDS[a.kind]) if a.type == "real" else {"integer": np.dtype("int64"), "logical": np.dtype(bool),
                                                               "character": np.dtype(object)}[a.type]
        x = np.empty(shape, dtype=t)
        for i in np.ndindex(*shape):
            x[i] = self.number(a)
        return x

    def make(self, a, path=""):
        ddts = dict(self.model.ddts)
        decl = fgen.declaration(("type(%s) :: " % a.type if a.type in ddts else a.decl().split("::")[0] + ":: ")
                                + a.local + ("(%s)" % ",".join(":" for _ in a.dims) if a.dims else ""))[0]
        decl.attrs = [x for x in decl.attrs] + ["target"]
        here = path + a.local
        if a.type in ddts:
            return fgen.Slot(None, decl, {f.local.lower(): self.make(f, here + "%") for f in ddts[a.type]})
        if a.std in ("horizontal_dimension", "vertical_layer_dimension"):
            x = np.array(self.n[a.std], dtype="int64")
        else:
            x = self.array(a, tuple(self.n[d] for d in a.dims))
        s = fgen.Slot(fgen.Arr(x), decl)
        if a.extra.get("off"):
            s.arr = None
        self.std[a.std] = (s, a)
        self.host_std[a.std] = here
        return s

    def outer(self, module, name):
        if module == "host_mod":
            return self.slots.get(name)
        return None

    # what the schemes see
    def scheme(self, module, name, acts):
        suite, group, phase, sections = self.now
        self.count += 1
        need(self.expect_calls, "no more scheme calls", name)
        # outside the run phase the order of the schemes is not specified
        at = self.expect_calls.index(module) if phase != "run" and module in self.expect_calls else 0
        want = self.expect_calls.pop(at)
        need((module, name) == (want, want + "_" + SUFFIX[phase]) or
             (module == want and name in [want + "_" + p for p in self.model.schemes[want]]),
             "the schemes in suite order", name, "expected", want)
        args = self.model.schemes[want][name[len(want) + 1:]]
        need(self.phase_of(name[len(want) + 1:]) == phase, "a phase calls the entry point of that phase", name, phase)
        need(self.err.data[()] == 0, "no scheme is called after an error", name)
        kws = [k for k, _ in acts]
        need(None not in kws, "arguments are named", name, kws)
        need(sorted(kws) == sorted(a.local.lower() for a in args), "every argument once", name, kws)
        got = dict(acts)
        for a in args:
            self.argument(name, a, got[a.local.lower()], phase, sections)
        self.leave(name, args, got, phase, sections)
        self.events.append(name)

    def phase_of(self, tail):
        for p, s in SUFFIX.items():
            if tail in (s, p):
                return p
        return {"final": "finalize", "timestep_finalize": "timestep_final",
                "timestep_initialize": "timestep_initial"}.get(tail)

    def window(self, a, x, phase, sections):
        """the part of a variable's value that an argument stands for"""
        idx = []
        dims = a.dims
        for d in dims:
            if d in ("horizontal_loop_extent", "horizontal_loop_begin:horizontal_loop_end"):
                idx.append(slice(sections[0] - 1, sections[1]))
            else:
                idx.append(slice(None))
        return x[tuple(idx) + (Ellipsis,)]

    def absent(self, a):
        s, h = self.std.get(a.std, (None, None))
        if s is None:
            return a.std not in self.dynamic
        cond = h.extra.get("active")
        return cond is not None and not self.truth(cond)

    def truth(self, cond):
        cond = cond.strip("()")
        return bool(self.std[cond][0].arr.data[()])

    def argument(self, name, a, slot, phase, sections):
        if a.std in ("ccpp_error_code", "ccpp_error_message"):
            need(slot.arr is not None and (slot.arr is self.err or slot.arr is self.msg or
                                           np.shares_memory(slot.arr.data, (self.err if a.type == "integer"
                                                                            else self.msg).data)),
                 "the error variables are the caller's", name, a.local)
            return
        if a.optional and self.absent(a):
            need(slot.arr is None, "an inactive argument is absent", name, a.local)
            return
        need(slot.arr is not None, "an argument has a value", name, a.local)
        need(slot.arr.data.ndim == len(a.dims), "rank of an argument", name, a.local)
        if a.type == "real":
            need(slot.arr.data.dtype == np.dtype(KINDS[a.kind]), "kind of an argument", name, a.local,
                 slot.arr.data.dtype)
        if slot.decl is not None and a.intent != "in":
            need(slot.decl.intent != "in", "an argument that is written can be written", name, a.local)
        x, h = self.current(a, phase, sections)
        if x is None:
            return
        if a.intent in ("in", "inout"):
            y = self.into(a, h, x)
            need(near(slot.arr.data, y, self.single(a, h)), "the argument is the variable of its standard name, in "
                 "the scheme's units, kind and orientation", name, a.local, slot.arr.data.ravel()[:4], y.ravel()[:4])
        else:
            need(slot.arr.data.shape == x.shape, "shape of an argument", name, a.local, slot.arr.data.shape, x.shape)

    def single(self, a, h):
        return "kind_s" in (a.kind, h.kind)

    def flipped(self, a, h):
        return str(a.extra.get("top_at_one", "False")) != str(h.extra.get("top_at_one", "False")) and \
            self.vdim(a) is not None

    def vdim(self, a):
        for i, d in enumerate(a.dims):
            if "vertical" in d:
                return i
        return None

    def into(self, a, h, x):
        y = convert(x, h.units, a.units)
        return np.flip(y, self.vdim(a)) if self.flipped(a, h) else y

    def back(self, a, h, y):
        x = convert(y, a.units, h.units)
        return np.flip(x, self.vdim(a)) if self.flipped(a, h) else x

    def current(self, a, phase, sections):
        """the part of the variable (expected value) and the variable"""
        if a.std == "horizontal_loop_extent":
            return np.array(sections[1] - sections[0] + 1), a
        if a.std in ("horizontal_loop_begin", "horizontal_loop_end"):
            return np.array(sections[0 if a.std.endswith("begin") else 1]), a
        if a.std in self.std:
            h = self.std[a.std][1]
            return self.window(a, self.want[a.std], phase, sections), h
        if self.dynamic.get(a.std) is not None:
            x, h = self.dynamic[a.std]
            return self.window(a, x, phase, sections) if x.shape != () else x, h
        return None, None

    def leave(self, name, args, got, phase, sections):
        """the scheme writes its output arguments and may fail"""
        for a in args:
            s = got[a.local.lower()]
            if a.intent == "in" or s.arr is None or a.std in ("ccpp_error_code", "ccpp_error_message"):
                continue
            new = self.array(a, s.arr.data.shape)
            s.arr.data[...] = new
            x, h = self.current(a, phase, sections)
            if x is None:
                full = np.full(tuple(self.n[d] if d in self.n else self.n["horizontal_dimension"] for d in a.dims),
                               np.nan if a.type == "real" else 0, dtype=s.arr.data.dtype)
                self.dynamic[a.std] = (full, a)
                x, h = self.current(a, phase, sections)
            x[...] = self.back(a, h, new)
        if self.fail_at is not None and self.count > self.fail_at:
            self.fail_at = None
            self.err.data[...] = 7
            self.failed = True

    # driving
    def enter(self, suite, phase, part=None, sections=(1, 5), state_ok=True):
        """call a phase of the host cap; what it does must be what the model says"""
        self.err, self.msg = fgen.Arr(np.array(99)), fgen.Arr(np.array("stale", dtype=object))
        self.want = {k: (None if s.arr is None else np.array(s.arr.data)) for k, (s, _) in self.std.items()}
        groups = dict((n, g) for n, g in self.model.suites)[suite]
        init, final = STATES[phase]
        legal = self.state[suite] == init
        self.failed, before = False, len(self.events)
        items = [x for g, its in groups if phase != "run" or g == part for x in its]
        self.expect_calls = self.flatten(items, phase) if legal else []
        self.now = (suite, part, phase, sections)
        kw = {"suite_name": fgen.Slot(fgen.Arr(np.array(suite, dtype=object)))}
        if phase == "run":
            kw["suite_part"] = fgen.Slot(fgen.Arr(np.array(part, dtype=object)))
        D = fgen.declaration
        if phase == "register":
            # the host has released the constituents of an earlier registration
            # (<host>_ccpp_deallocate_dynamic_constituents)
            for s in self.m.globals[self.cap.lower()].values():
                if s.decl.has("allocatable") and "ccpp_constituent_properties_t" in s.decl.spec:
                    s.arr = None
        sub = self.m.mods[self.cap.lower()].subs[(self.model.hostname + "_ccpp_physics_" + phase).lower()]
        for name, val in (("col_start", sections[0]), ("col_end", sections[1])):
            if name in sub.args:
                kw[name] = fgen.Slot(fgen.Arr(np.array(val)), D("integer :: " + name)[0])
        kw["errflg"] = fgen.Slot(self.err, D("integer :: errflg")[0])
        kw["errmsg"] = fgen.Slot(self.msg, D("character(len=512) :: errmsg")[0])
        self.m.call(self.cap.lower(), sub.name, **kw)
        code = int(self.err.data[()])
        if not legal:
            need(code != 0, "a phase out of order is an error", phase, self.state[suite])
            need(len(self.events) == before, "a phase out of order does nothing", phase, self.state[suite])
        elif self.failed:
            need(code == 7, "the scheme's error is returned", code)
        else:
            need(code == 0, "a phase in order succeeds", phase, self.state[suite], self.msg.data[()])
            need(not self.expect_calls, "every scheme of the phase is called", phase, self.expect_calls)
            self.state[suite] = final
        if legal and self.failed:
            # only successful phases are specified: take the state there is
            mod = [m for m in self.m.mods if m == "ccpp_%s_cap" % suite.lower()][0]
            self.state[suite] = str(self.m.globals[mod]["ccpp_suite_state"].arr.data[()]).strip()
        for k, (s, h) in self.std.items():
            w = self.want[k]
            if w is None:
                need(s.arr is None, "an unallocated host variable stays so", k)
                continue
            need(s.arr is not None and near(s.arr.data, w, h.type == "real" and (h.kind == "kind_s" or self.lossy(k))),
                 "host variables hold what the schemes left, and nothing else changed", self.host_std[k],
                 phase, s.arr and s.arr.data.ravel()[:6], w.ravel()[:6])
        return code

    def lossy(self, std):
        return any(a.std == std and a.kind == "kind_s" for ph in self.model.schemes.values()
                   for args in ph.values() for a in args)

    def flatten(self, items, phase):
        out = []
        for x in items:
            if isinstance(x, str):
                if any(self.phase_of(p) == phase for p in self.model.schemes[x]):
                    out.append(x)
            else:
                out += self.flatten(x[1], phase) * (int(x[0]) if phase == "run" else 1)
        # outside the run phase a scheme has its turn once
        return out if phase == "run" else list(dict.fromkeys(out))
