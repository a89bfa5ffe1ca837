"""C16: each scheme call passes every argument once, guarded and in order."""
from pyvc.harness import contract, stand_in
from contracts import e2e, fgen, world
from contracts.c09 import StubVarSpec, Ctx, env, errors

H, Z, L = "horizontal_dimension", "vertical_layer_dimension", "horizontal_loop_extent"
ALT = {"m": "km", "km": "m", "Pa": "hPa", "hPa": "Pa", "K": "C", "C": "K"}
NAMES = ["a", "b", "temp", "q", "col"]


def host_var(v, k, tag):
    """a host variable: dims, kind, units, orientation, activity"""
    shape = v.choice(tag + "dims", [[H], [H, Z], [H, Z], []])
    typ = v.choice(tag + "type", ["real"] * 5 + ["integer"])
    units = v.choice(tag + "units", ["m", "Pa", "K", "km"]) if typ == "real" else "count"
    kind = v.choice(tag + "kind", ["kind_phys"] * 3 + ["kind_s"]) if typ == "real" else None
    more = {}
    if Z in shape and v.choice(tag + "top", [False, False, True]):
        more["top_at_one"] = "True"
    return e2e.Arg("h_" + "abcdefgh"[k], "quantity_" + "abcdefgh"[k], shape, typ, kind, units, **more)


def scheme_arg(v, h, phase, tag, local, change):
    """an argument for a host variable, possibly in other units, kind or orientation"""
    dims = [(L if phase == "run" and d == H else d) for d in h.dims]
    a = e2e.Arg(local, h.std, dims, h.type, h.kind, h.units, v.choice(tag + "intent", ["in", "inout", "out"]))
    if "top_at_one" in h.extra:
        a.extra["top_at_one"] = h.extra["top_at_one"]
    if change and h.type == "real":
        if v.choice(tag + "u", [False, True]):
            a.units = ALT[a.units]
        if v.choice(tag + "k", [False, False, True]):
            a.kind = "kind_s" if a.kind == "kind_phys" else "kind_phys"
        if Z in h.dims and v.choice(tag + "f", [False, False, True]):
            if a.extra.pop("top_at_one", None) is None:
                a.extra["top_at_one"] = "True"
    return a


def suite_vars(v, n):
    """variables that the schemes hand to each other: the first scheme of the suite makes them"""
    out = []
    for k in range(n):
        h = host_var(v, k, "s")
        h.local, h.std = "s_" + "abc"[k], "amount_" + "abc"[k]
        out.append(h)
    return out


def model(v, nvars, nschemes, ngroups, change, active=False, nsuite=0):
    m = e2e.Model()
    sv = suite_vars(v, nsuite)
    m.kinds = ["kind_phys=REAL64", "kind_s=REAL32"]
    hv = [host_var(v, k, "h%d " % k) for k in range(nvars)]
    if active:
        m.hostvars.append(e2e.Arg("flag_on", "flag_for_things", (), "logical", None, "flag"))
        for h in hv:
            if h.dims and v.choice("active", [False, True]):
                h.extra["active"] = "(flag_for_things)"
    place = [v.choice("place", [0, 0, 0, 1, 2]) for _ in hv]
    m.hostvars += [h for h, p in zip(hv, place) if p == 0]
    if any(place):
        # (some variables are components of a derived type of the host, or of one within it)
        inner = [h for h, p in zip(hv, place) if p == 2]
        outer = [h for h, p in zip(hv, place) if p == 1]
        if inner:
            m.ddts.append(("t_inner", inner))
            outer.append(e2e.Arg("inn", "inner_thing", (), "t_inner", None, "DDT"))
        m.ddts.append(("t_outer", outer))
        m.hostvars.append(e2e.Arg("obj", "outer_thing", (), "t_outer", None, "DDT"))
    names = ["one", "two", "tri"][:nschemes]
    for s in names:
        m.schemes[s] = {}
        for ph, meta in (("initialize", "init"), ("run", "run"), ("timestep_final", "timestep_final")):
            if ph != "run" and not v.choice("has", [False, False, True]):
                continue
            locs = list(NAMES)
            args = []
            for k, h in enumerate(hv + (sv if ph == "run" else [])):
                if not v.choice("uses", [True, True, False]):
                    continue
                a = scheme_arg(v, h, ph, "", locs.pop(v.choice("local", list(range(len(locs))))),
                               change and ph == "run" and v.choice("change", [True, False]))
                if "active" in h.extra or (active and h in sv and v.choice("optional", [False, True])):
                    a.optional = True
                args.append(a)
            if ph == "run" and v.choice("width", [True, False]):
                args.append(e2e.Arg("im", L, (), "integer", None, "count", "in"))
            if any(Z in a.dims for a in args):
                # (a scheme whose vertical variables are converted takes the vertical dimension)
                args.append(e2e.Arg("nz", Z, (), "integer", None, "count", "in"))
            if v.choice("order", [False, True]):
                args.reverse()
            m.schemes[s][meta] = (args + e2e.ERRORS) if v.choice("errs", [True, True, False]) else e2e.ERRORS + args
    if sv:
        args = [scheme_arg(v, h, "run", "", locs, False) for h, locs in zip(sv, "uvw")]
        for a in args:
            a.intent = "out"
        if any(Z in a.dims for a in args):
            args.append(e2e.Arg("nz", Z, (), "integer", None, "count", "in"))
        m.schemes["make"] = {"run": args + e2e.ERRORS}
    groups = []
    for g in range(ngroups):
        groups.append(("grp%d" % g, [v.choice("scheme", names) for _ in range(v.choice("items", [1, 2, 3]))]))
    if sv:
        groups[0][1].insert(0, "make")
    m.suites.append(("suite_a", groups))
    return m


def drive(v, m):
    """a whole lifecycle with two time steps"""
    r = e2e.run(v, m)
    v.prove(r.ok, "a legal model is accepted", lambda: "%r\n%s" % (r.exc, show(m)))
    try:
        w = world.World(m, r, v.pick)
        if "flag_for_things" in w.std:
            on = v.choice("on", [True, False])
            w.std["flag_for_things"][0].arr.data[...] = on
            for s, h in w.std.values():
                if "active" in h.extra and not on:
                    s.arr, s.inactive = None, True
        suite, groups = m.suites[0]
        w.enter(suite, "register")
        w.enter(suite, "initialize")
        for _ in range(2):
            w.enter(suite, "timestep_initial")
            cols = None
            for g, _ in groups:
                if v.choice("fail", [False] * 6 + [True]):
                    w.fail_at = w.count + v.choice("at", [0, 1, 2])
                # (suite variables are made by the first group: others may use those columns)
                cols = v.choice("cols", [c for c in [(1, 5), (1, 3), (2, 4), (5, 5), (3, 3)] if cols is None or
                                         "make" not in m.schemes or (cols[0] <= c[0] and c[1] <= cols[1])])
                w.enter(suite, "run", g, cols)
                w.fail_at = None
            w.enter(suite, "timestep_final")
        w.enter(suite, "finalize")
    except (world.Broken, fgen.FortranError) as exc:
        v.prove(False, "every call is as the metadata asks", "%s: %s\n%s" % (type(exc).__name__, exc, show(m)))


def show(m):
    out = ["host: %s" % "; ".join(" ".join(a.meta().split()) for a in m.hostvars)]
    for s, ph in m.schemes.items():
        for p, args in ph.items():
            out.append("%s_%s: %s" % (s, p, "; ".join(" ".join(a.meta().split()) for a in args
                                                     if "ccpp_error" not in a.std)))
    return "\n".join(out + [repr(m.suites)])


# The argument list of a call, for all names (the rest of this file is bounded)

class Where:
    name, context = "src", Ctx()

    def __init__(self, ptype):
        self.ptype = ptype


class CallVarSpec:
    """assumed contract of Var as far as an argument list uses it"""

    def __init__(self, std, loc, suite="host", optional=False, plain="", full=""):
        self.p = {"standard_name": std, "local_name": loc, "intent": "in", "protected": False, "optional": optional}
        self.ok, self.whence, self.dims, self.asked = True, Where(suite), (plain, full), []

    source = property(lambda self: self.whence)
    context, parent = Ctx(), None
    var = property(lambda self: self)
    get_prop_value = StubVarSpec.get_prop_value
    compatible = StubVarSpec.compatible
    array_ref = StubVarSpec.array_ref

    def call_dimstring(self, var_dicts=None, explicit_dims=False, loop_subst=False):
        self.asked.append((list(var_dicts), explicit_dims, loop_subst))
        return self.dims[1 if explicit_dims else 0]


class RoutineSpec:
    """assumed contract of the object that is called"""
    def __init__(self, run):
        self.run = run

    def run_phase(self):
        return self.run


DIMS = [("", ""), ("(:)", "(col_start:col_end)"), ("(:,:)", "(col_start:col_end,1:nz)"),
        ("(:,vertical_layer_index)", "(col_start:col_end,vertical_layer_index)")]


@contract(["suite_objects.CallList.call_string", "suite_objects.CallList.add_variable",
           "metavar.VarDictionary.variable_list", "metavar.VarDictionary.find_variable"], conc=500, cases=[1, 2, 3],
          paths=4000, note="Var by an assumed contract; local names of any text, one to three arguments, two "
          "dictionaries; with more arguments, fewer kinds of each")
def call_arguments(v, n):
    """every argument once, by keyword, with the first variable of its standard name"""
    so, mv = v.repo("suite_objects"), v.repo("metavar")
    var = stand_in(CallVarSpec, mv.Var)
    run = v.choice("run", [True, False] if n < 3 else [True])
    cl = so.CallList("calls", env(v), routine=RoutineSpec(run))
    inner, outer = mv.VarDictionary("inner", env(v)), mv.VarDictionary("outer", env(v))
    copies, want, missing, args = {}, [], False, []
    for i in range(n):
        std = "quantity_%d" % i
        plain, full = v.choice("dims%d" % i, [DIMS, DIMS[2:3], DIMS[1:2]][n - 1])
        opt = v.choice("opt%d" % i, [False, True] if n + i < 3 else [False])
        d = v.name("dummy%d" % i, pool=["x", "y", "q"], lower=True)
        for a in args:
            v.assume(v.Not(v.eq(a.p["local_name"], d)))
        a = var(std, d, optional=opt, plain=plain, full=full)
        args.append(a)
        cl.add_variable(a, env(v))
        where = v.choice("where%d" % i, [["inner", "outer", "both", "none"], ["both", "inner"], ["inner", "outer"]][n - 1])
        lname, suite = None, False
        for k, dic in (("inner", inner), ("outer", outer)):
            if where in (k, "both"):
                loc = v.name("%s%d" % (k, i), pool=["a_%s%d" % (k, i)], lower=True)
                mine = v.choice("suite %s%d" % (k, i), [False, True])
                ptype = so._API_SUITE_VAR_NAME if mine else "host"
                dv = var(std, loc, suite=ptype)
                for o in dic.variable_list():
                    v.assume(v.Not(v.eq(o.p["local_name"], loc)))
                dic.add_variable(dv, env(v))
                if lname is None:
                    lname, suite = loc, mine
        if where == "none":
            missing = True
            continue
        if v.choice("copy%d" % i, [False, True] if n < 3 or i == 1 else [False]):
            lname = copies[std] = v.name("copy_name%d" % i, pool=["tmp"])
        dims = full if suite and run else plain
        blank = dims == "" or set(dims) <= set("(:,)")
        want.append((d, lname, "" if blank or opt else dims))
    out = v.call(cl.call_string, cldicts=[inner, outer], is_func_call=True, subname="sub", sub_lnames=copies,
                 catch=errors(v))
    info = lambda: "%r -> %r" % (want, out)
    if missing:
        v.prove(not out.ok, "an argument for which there is no variable is an error", info)
        return
    v.prove(out.ok, "an argument list", info)
    text = ""
    for k, (d, lname, dims) in enumerate(want):
        text = text + (", " if k else "") + d + "=" + lname + dims
    v.prove(v.eq(out.value, text), "every argument once, named, in order, with its variable", info)


COVERS = ["suite_objects.Scheme.write", "suite_objects.Scheme.analyze", "suite_objects.CallList.call_string",
          "suite_objects.Scheme.add_var_transform", "suite_objects.Scheme.write_var_transform",
          "suite_objects.Group.write", "suite_objects.Group.analyze", "host_cap.write_host_cap",
          "host_cap.suite_part_call_list", "ccpp_suite.Suite.analyze", "ccpp_suite.Suite.write",
          "ccpp_capgen.capgen"]


@contract(COVERS, sym=False, conc=4000, budget=60,
          note="bounded: up to four host variables, three schemes and two groups, no conversions")
def direct_arguments(v):
    """every argument is the variable of its standard name"""
    drive(v, model(v, v.choice("nv", [1, 2, 3, 4]), v.choice("ns", [1, 2, 3]), v.choice("ng", [1, 2]), False))


@contract(COVERS, sym=False, conc=4000, budget=60,
          note="bounded: up to three host variables, two schemes and two groups; units, kinds and orientation differ")
def converted_arguments(v):
    """an argument that is read is converted in before the call, one that is written is converted out after it"""
    drive(v, model(v, v.choice("nv", [1, 2, 3]), v.choice("ns", [1, 2]), v.choice("ng", [1, 2]), True))


@contract(COVERS + ["suite_objects.Scheme.associate_optional_var", "suite_objects.Scheme.assign_pointer_to_var"],
          sym=False, conc=4000, budget=60,
          note="bounded: up to three host variables that may be inactive, two schemes; optional arguments, converted "
               "or not")
def optional_arguments(v):
    """an inactive variable is not passed; an active one is"""
    drive(v, model(v, v.choice("nv", [1, 2, 3]), v.choice("ns", [1, 2]), 1, v.choice("conv", [False, True]), True))


@contract(COVERS + ["suite_objects.Group.manage_variable", "suite_objects.SuiteObject.match_variable"],
          sym=False, conc=4000, budget=60,
          note="bounded: up to two suite variables (made by the first scheme), two host variables, two schemes, two "
               "groups")
def suite_variables(v):
    """variables which the schemes hand to each other are kept, and passed like host variables"""
    drive(v, model(v, v.choice("nv", [0, 1, 2]), v.choice("ns", [1, 2]), v.choice("ng", [1, 2]),
                   v.choice("conv", [False, True]), v.choice("opt", [False, True]), v.choice("nsv", [1, 2])))
