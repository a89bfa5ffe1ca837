"""C23: components of derived types are reached through their full access path."""
from pyvc.harness import contract, Stand, stand_in

PROPS = ["local_name", "standard_name", "long_name", "units", "dimensions", "type", "kind", "state_variable",
         "protected", "allocatable", "diagnostic_name", "default_value", "persistence", "active", "polymorphic",
         "top_at_one", "optional", "target", "intent", "advected", "molar_mass"]
LNAMES = ["a", "b", "obj", "temp", "q2"]
SNAMES = ["host_object", "temperature", "humidity", "pressure", "object_one", "object_two", "wind", "density"]


class Env:
    """assumed contract of the run environment: nothing is logged"""
    verbose, logger = False, None


def fresh_types(v, names):
    """the derived types are known to the parser"""
    pt = v.repo("parse_tools")
    for n in names:
        if not pt.registered_fortran_ddt_name(n):
            pt.register_fortran_ddt_name(n)


def variable(v, local, std, ddt=None, dims=(), units="K", k=1, **more):
    mv, pt = v.repo("metavar"), v.repo("parse_tools")
    props = {"local_name": local, "standard_name": std, "units": "none" if ddt else units, "dimensions": list(dims)}
    props["ddt_type" if ddt else "type"] = ddt or "real"
    if not ddt:
        props["kind"] = "kind_phys"
    props.update(more)
    return mv.Var(props, pt.ParseSource("host_mod", "MODULE", pt.ParseContext(linenum=k, filename="f.meta")), Env())


def chain(v, depth, leaf):
    """[root, field, ..., leaf] with symbolic local names"""
    fresh_types(v, ["pv_t%d" % i for i in range(depth)])
    out = []
    for i in range(depth):
        out.append(variable(v, v.name("local%d" % i, pool=LNAMES), "object_%d" % i, "pv_t%d" % i, k=i + 1))
    return out + [leaf]


def nest(v, parts):
    ddt = v.repo("ddt_library")
    ref = parts[0]
    for p in parts[1:]:
        ref = ddt.VarDDT(p, ref, Env())
    return ref


@contract(["ddt_library.VarDDT.__init__", "ddt_library.VarDDT.call_string", "ddt_library.VarDDT.get_prop_value",
           "ddt_library.VarDDT.get_parent_prop"], conc=400, cases=[1, 2, 3, 4, 5],
          note="nesting to 5 levels, every local name")
def access_path(v, depth):
    """a component is named by its full path; its properties are its own, the parent's are the host variable's"""
    leaf = variable(v, v.name("leaf", pool=LNAMES), "leaf_quantity", None,
                    v.choice("dims", [(), ("horizontal_dimension",)]), k=9,
                    allocatable=v.choice("alloc", [True, False]), units=v.choice("units", ["K", "m s-1"]))
    parts = chain(v, depth, leaf)
    out = v.call(nest, v, parts)
    v.prove(out.ok, "a component of a component", lambda: repr(out))
    if not out.ok:
        return
    x = out.value
    path = v.join("%", [p.get_prop_value("local_name") for p in parts])
    got = x.call_string(None)
    v.prove(v.eq(got, path), "the complete path from the host variable", lambda: "%r %r" % (got, path))
    for p in PROPS:
        a, b = x.get_prop_value(p), leaf.get_prop_value(p)
        v.prove(v.eq(a, b) if isinstance(b, str) or not isinstance(b, (list, bool, type(None))) else a == b,
                "property %s of the component" % p, lambda: "%r %r" % (a, b))
    for p in ("local_name", "standard_name", "type"):
        v.prove(v.eq(x.get_parent_prop(p), parts[0].get_prop_value(p)), "%s of the host variable" % p,
                lambda: "%r" % x.get_parent_prop(p))


class Section(Stand):
    """assumed contract of MetadataSection"""
    def __init__(self, title, variables, module="m"):
        self.facts, self.vars = (title, module), variables

    title = property(lambda self: self.facts[0])
    module = property(lambda self: self.facts[1])
    header_type = property(lambda self: "ddt")
    context = property(lambda self: None)

    def variable_list(self, *a, **k):
        return list(self.vars)


def section(v, title, variables):
    return stand_in(Section, v.repo("metadata_table").MetadataSection)(title, variables)


@contract(["ddt_library.DDTLibrary.collect_ddt_fields", "ddt_library.DDTLibrary.__init__",
           "ddt_library.VarDDT.__init__", "metavar.VarDictionary.add_variable"], conc=1500,
          cases=["flat", "nested", "deep", "twice"], paths=4000,
          note="every pattern of equal and different standard names; names themselves are only compared")
def reachable_components(v, shape):
    """every component, at any depth, is available under its standard name, with its path"""
    ddt, mv, pt = v.repo("ddt_library"), v.repo("metavar"), v.repo("parse_tools")
    types = {"flat": ["pv_t0"], "nested": ["pv_t0", "pv_t1"], "deep": ["pv_t0", "pv_t1", "pv_t2"],
             "twice": ["pv_t0", "pv_t1"]}[shape]
    fresh_types(v, types + ["pv_unknown"])
    stds, want, secs = [], [], {}

    def std(tag):
        """one of the names so far, or the next new one"""
        s = v.choice(tag, SNAMES[:len(set(stds + SNAMES[:1])) + 1])
        stds.append(s)
        return s
    for i, t in enumerate(types):
        fields = []
        for j in range(2 if not v.symbolic or shape in ("flat", "nested") else 1):
            fields.append(variable(v, "f%d" % j, std("std%d_%d" % (i, j)), k=10 * i + j))
        if i + 1 < len(types):
            pos = v.choice("pos", [0, 1])
            fields.insert(pos, variable(v, "sub%d" % i, std("obj%d" % (i + 1)), types[i + 1], k=10 * i + 5))
        if shape == "flat":
            # a type of which no components are known is a component like any other
            fields.append(variable(v, "other", std("ostd"), "pv_unknown", k=8))
        secs[t] = section(v, t, fields)
    if shape == "twice":
        secs["pv_t0"].vars.append(variable(v, "again", std("again"), "pv_t1", k=7))
    root = variable(v, v.name("root", pool=LNAMES), "host_object", "pv_t0", k=50)
    host = mv.VarDictionary("host", Env())
    v.assume(v.Not(v.eq(root.get_prop_value("local_name").lower(), "taken")))
    host.add_variable(root, Env())
    taken = None    # or a name already in use
    if shape != "deep" and v.choice("taken", [True, False]):
        taken = std("taken_std")
        v.assume(taken != "host_object")
        host.add_variable(variable(v, "taken", taken, k=60), Env())
    fields = mv.VarDictionary("fields", Env(), parent_dict=host)
    skip = v.choice("skip", [False, True]) if not v.symbolic else False

    def walk(t, path):
        """(standard name, path) in the order in which they are met"""
        for f in secs[t].vars:
            here = path + [f.get_prop_value("local_name")]
            ft = f.get_prop_value("type")
            if ft in secs:
                walk(ft, here)
            want.append((f.get_prop_value("standard_name"), v.join("%", here)))
    walk("pv_t0", [root.get_prop_value("local_name")])
    lib = ddt.DDTLibrary("lib", Env(), ddts=[secs[t] for t in types])
    out = v.call(lib.collect_ddt_fields, fields, root, Env(), skip_duplicates=skip)
    names = ["host_object"] + ([taken] if taken is not None else [])
    clash = []
    for s, _ in want:
        clash.append(v.Or(False, *[v.eq(s, y) for y in names]))
        names.append(s)
    if skip:
        v.prove(out.ok, "duplicates are skipped if asked", lambda: repr(out))
        seen = ["host_object"] + ([taken] if taken is not None else [])
        kept = []
        for s, p in want:
            if s not in seen:
                seen.append(s)
                kept.append((s, p))
        want = kept
    else:
        v.prove(v.Iff(out.ok, v.Not(v.Or(False, *clash))), "an error iff a standard name is taken",
                lambda: "%r %r %r" % (out, want, taken))
    if not out.ok:
        v.prove(isinstance(out.exc, pt.CCPPError), "reported as an error of the input", lambda: repr(out))
        return
    v.prove(len(fields.variable_list()) == len(want), "no more components", lambda: repr(fields.variable_list()))
    for s, p in want:
        x = fields.find_variable(standard_name=s, any_scope=False)
        v.prove(x is not None, "available under its standard name", lambda: "%r" % s)
        if x is not None:
            got = x.call_string(None)
            v.prove(v.eq(got, p), "by its path", lambda: "%r: %r expected %r" % (s, got, p))


@contract(["ddt_library.DDTLibrary.check_ddt_type", "ddt_library.DDTLibrary.collect_ddt_fields",
           "ddt_library.DDTLibrary.__init__"], conc=800)
def unknown_types(v):
    """a derived type without a definition, or with two, is an error"""
    ddt, mv, pt = v.repo("ddt_library"), v.repo("metavar"), v.repo("parse_tools")
    fresh_types(v, ["pv_known", "pv_other"])
    n = v.choice("n", [0, 1, 2])
    t = v.name("title", pool=["pv_known", "pv_third", "pv_other"])
    secs = [section(v, x, []) for x in ["pv_known", t][:n]]
    lib = v.call(ddt.DDTLibrary, "lib", Env(), ddts=secs)
    v.prove(v.Iff(lib.ok, v.Or(n < 2, v.Not(v.eq(t, "pv_known")))), "each type is defined once", lambda: repr(lib))
    if not lib.ok:
        v.prove(isinstance(lib.exc, pt.CCPPError), "reported as an error of the input", lambda: repr(lib))
        return
    vt = v.choice("type", ["pv_known", "pv_other", None])
    x = variable(v, "obj", "object_x", vt, k=4)
    out = v.call(lib.value.check_ddt_type, x, section(v, "hdr", []))
    known = vt is None or v.Or(False, *[v.eq(vt, s) for s in ["pv_known", t][:n]])
    v.prove(v.Iff(out.ok, known), "known iff defined", lambda: "%r %r %r" % (vt, t, out))
    if not out.ok:
        v.prove(isinstance(out.exc, pt.CCPPError), "reported as an error of the input", lambda: repr(out))
    if vt is not None:
        d = mv.VarDictionary("fields", Env())
        out = v.call(lib.value.collect_ddt_fields, d, x, Env())
        v.prove(v.Iff(out.ok, known), "components are collected iff the type is known", lambda: repr(out))
