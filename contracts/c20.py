"""C20: the prebuild path keeps names, containers and array bounds intact."""
from pyvc.harness import contract

STD = ["xdim", "ydim", "nlev", "ncol"]


def scripts(v, name):
    return v.repo(name)


# ------------------------------------------------------------------ containers
@contract(["common.encode_container", "common.decode_container", "common.decode_container_as_dict"],
          cases=[1, 2, 3], conc=1500)
def containers(v, n):
    """every module, scheme, subroutine and type name"""
    cm = v.repo("common")
    names = [v.name("name%d" % i, pool=["mod", "a_b", "SCHEME_x", "x_TYPE", "my_MODULE_1", "run"])
             for i in range(n)]
    keys = {1: ["MODULE"], 2: ["MODULE", "TYPE"], 3: ["MODULE", "SCHEME", "SUBROUTINE"]}[n]
    c = cm.encode_container(*names)
    d = cm.decode_container_as_dict(c)
    v.prove(sorted(d.keys()) == sorted(keys), "the container decodes to the kinds it was built from",
            lambda: "%r -> %r" % (names, d))
    for k, x in zip(keys, names):
        v.prove(v.eq(d[k], x), "the container decodes to the names it was built from",
                lambda: "%r -> %r" % (names, d))
    text = cm.decode_container(c)
    want = v.join(" ", [v.join(" ", [k, x]) for k, x in zip(keys, names)])
    v.prove(v.eq(text, want), "the readable form names every part", lambda: "%r -> %r" % (names, text))


@contract(["common.encode_container", "common.decode_container", "common.decode_container_as_dict"],
          sym=False, conc=100, note="exhaustive over wrong numbers of parts")
def container_parts(v):
    cm = v.repo("common")
    n = v.choice("n", [0, 4, 5, 6])
    v.prove(not v.call(cm.encode_container, *["x"] * n).ok, "any other number of parts is an error")
    if n > 3:
        c = " ".join("MODULE_x" for _ in range(n))
        v.prove(not v.call(cm.decode_container, c).ok and not v.call(cm.decode_container_as_dict, c).ok,
                "any other number of parts is an error")


class Holder:
    """stand-in for self of Var.print_module_use: container and local name"""

    def __init__(self, container, local_name):
        self.container, self.local_name = container, local_name


@contract(["mkcap.Var.print_module_use"], cases=[1, 2, 3], conc=1000)
def module_use(v, n):
    """the use statement names the module the variable was found in"""
    cm, mc = v.repo("common"), v.repo("mkcap")
    names = [v.name("name%d" % i, pool=["mod", "a_b", "SCHEME_x", "my_MODULE_1", "MODULE_MODULE_"])
             for i in range(n)]
    loc = v.name("local", pool=["x", "MODULE_y"])
    got = mc.Var(container=cm.encode_container(*names), local_name=loc).print_module_use()
    v.prove(v.eq(got, v.join("", ["use ", names[0], ", only: ", loc])),
            "the module used is the one in the container", lambda: "%r -> %r" % (names, got))


# ------------------------------------------------------------- array references
@contract(["common.split_var_name_and_array_reference"], cases=[1, 2, 3, 4, 5, 6], conc=3000,
          note="references of up to six characters, every character")
def splitting_a_reference(v, n):
    cm = v.repo("common")
    base = v.chars("base", v.choice("nb", [1, 3]), "abX1_")
    body = v.chars("ref", n - 1, "ab(),:%1")
    # precondition: parentheses balance
    depth = 0
    for i in range(n - 1):
        if body[i] == "(":
            depth += 1
        elif body[i] == ")":
            depth -= 1
        if depth < 0:
            v.assume(False)
    v.assume(depth == 0)
    name = base + "(" + body + ")"
    got = cm.split_var_name_and_array_reference(name)
    v.prove(v.And(v.eq(got[0], base), v.eq(got[1], "(" + body + ")")),
            "the name and the last reference", lambda: "%r -> %r" % (name, got))
    pre = v.choice("parent", ["dat(", "dat(1)%"])
    if pre == "dat(1)%":
        got = cm.split_var_name_and_array_reference(pre + name)
        v.prove(v.And(v.eq(got[0], pre + base), v.eq(got[1], "(" + body + ")")),
                "a reference of a parent stays with the name", lambda: "%r -> %r" % (name, got))


def reference(v, tag, depth, idents, kinds=None):
    """one index of a reference: (text, names it starts with)"""
    k = v.choice("k" + tag, kinds or (["name", "int", ":", "range", "part", "array"] if depth else
                                      ["name", "int", ":"]))
    if k == "int":
        return v.choice("i" + tag, ["1", "23", "-1"]), []
    if k == ":":
        return ":", []
    a = idents(tag + "a")
    if k == "name":
        return a, [a]
    if k == "range":
        b = idents(tag + "b")
        return a + ":" + b, [a, b]
    if k == "part":
        return a + "%" + idents(tag + "b") + v.choice("p" + tag, ["", "%z"] if v.symbolic else ["", "%z", "%y1%z"]), [a]
    inner, names = reference(v, tag + "x", depth - 1, idents)
    if (not v.symbolic or tag == "r00") and v.choice("w" + tag, [False, True]):
        # a second index; what the two look like does not depend on one another
        second, names2 = reference(v, tag + "y", 0, idents, ["int"] if v.symbolic else None)
        inner, names = inner + "," + second, names + names2
    extra = v.choice("e" + tag, ["", "%mm"])
    return a + "(" + inner + ")" + extra, names + [a]


def local_name(v, idents, depth=1, kinds=None, most=2):
    """(text, parent, index names, dimensions, reference of the last component)"""
    text, names = "", []
    first, dims, ref = None, [], ""
    for i in range(v.choice("components", [1, 2] if v.symbolic and kinds != ["name"] else [1, 2, 3])):
        c = idents("c%d" % i)
        first = first if first is not None else c
        dims, ref = [], ""
        n = v.choice("rank%d" % i, list(range(most + 1 if i < 2 or not v.symbolic else 1)))
        for j in range(n):
            t, ns = reference(v, "r%d%d" % (i, j), depth, idents, kinds)
            dims.append(t)
            names.extend(ns)
        if n:
            ref = "(" + ",".join(dims) + ")" if not getattr(v, "symbolic", False) else \
                "(" + v.join(",", dims) + ")"
        text = text + ("%" if i else "") + c + ref
    return text, first, names, dims, ref


def check_local_name(v, text, parent, names, dims, ref):
    ms = v.repo("mkstatic")
    got = ms.extract_parents_and_indices_from_local_name(text)

    def show():
        return "%r -> %r, expected %r, %r" % (text, got, parent, names)
    v.prove(v.eq(got[0], parent), "the parent is the first component", show)
    v.prove(v.And(*[v.Or(*[v.eq(a, b) for b in got[1]]) for a in names]),
            "every index variable is extracted", show)
    v.prove(v.And(*[v.Or(*[v.eq(a, b) for b in names]) for a in got[1]]),
            "nothing else is extracted", show)
    v.prove(v.And(*[v.Not(v.eq(a, b)) for i, a in enumerate(got[1]) for b in got[1][:i]]),
            "no index variable twice", show)
    out = ms.extract_dimensions_from_local_name(text)

    def show2():
        return "%r -> %r, expected %r, %r" % (text, out, dims, ref)
    v.prove(v.eq(out[1], ref), "the reference of the last component", show2)
    v.prove(len(out[0]) == len(dims) and v.And(*[v.eq(a, b) for a, b in zip(out[0], dims)]),
            "the dimensions as they occur", show2)


@contract(["mkstatic.extract_parents_and_indices_from_local_name",
           "mkstatic.extract_dimensions_from_local_name"], conc=2500,
          cases=["name", "int", ":", "range", "part", "array"],
          note="names of two characters each; up to two components and two indices "
               "each, one nested reference")
def local_names(v, kind):
    """derived-type parents, indices and dimensions"""
    def idents(tag):
        return "q" + v.chars("n" + tag, 1, "ab1")
    text, parent, names, dims, ref = local_name(
        v, idents, 1, [kind], 1 if kind in ("array", "range", "part") else 2)
    check_local_name(v, text, parent, names, dims, ref)


@contract(["mkstatic.extract_parents_and_indices_from_local_name",
           "mkstatic.extract_dimensions_from_local_name"], sym=False, conc=12000, budget=25,
          note="bounded: up to two components with three indices each, nested twice, with blanks")
def nested_local_names(v):
    def idents(tag):
        return v.choice("n" + tag, ["a", "bb", "a1", "Atm", "mytile", "gq", "i"])
    text, parent, names, dims, ref = local_name(v, idents, 2, None, 3)
    if v.choice("blank", [False, False, True]):
        text = text.replace(",", ", ").replace(":", v.choice("colon", [":", " :", ": "]))
        ms = v.repo("mkstatic")
        got = ms.extract_parents_and_indices_from_local_name(text)
        v.prove(got[0] == parent and set(got[1]) == set(names) and len(got[1]) == len(set(names)),
                "blanks change nothing", lambda: "%r -> %r, expected %r %r" % (text, got, parent, names))
        return
    check_local_name(v, text, parent, names, dims, ref)


# ------------------------------------------------------------------------ bounds
def mapping(v, pairs):
    if not v.symbolic:
        return dict(pairs)
    from pyvc.hooks import SymDict
    return SymDict(pairs)


class Named:
    """assumed contract of a host variable: its local name"""

    def __init__(self, local_name):
        self.local_name = local_name


def bound(v, tag, meta):
    """(text, what it becomes, known)"""
    k = v.choice("k" + tag, ["known", "name", "int", "neg"])
    if k in ("int", "neg"):
        d = v.str("d" + tag, charset="0123456789", nonempty=True, pool=["1", "0", "12"])
        t = v.join("", ["-", d]) if k == "neg" else d
        return t, t, True
    if k == "known":
        s, loc = v.choice("w" + tag, meta)
        return s, loc, True
    n = "d_" + v.name("n" + tag, pool=["zdim", "x"], lower=True)
    for s, loc in meta:
        if v.eq(s, n):
            return n, loc, True
    return n, None, False


@contract(["mkcap.Var.dimstring_local_names", "mkcap.Var.print_def_intent"], conc=3000,
          cases=[0, 1, 2], note="up to two dimensions: every name, local name and integer; two dimensions as a pair and a "
               "single name, the other orders bounded")
def declared_bounds(v, n):
    mc = v.repo("mkcap")
    meta = [("d_" + v.name("s%d" % i, pool=["x", "y"], lower=True),
             v.name("l%d" % i, pool=["nx", "Ny", "im%nz"])) for i in range(2)]
    v.assume(v.Not(v.eq(meta[0][0], meta[1][0])))
    table = mapping(v, [(s, [Named(loc)]) for s, loc in meta])
    dims, lower, upper, known = [], [], [], True
    for i in range(n):
        if v.choice("form%d" % i, ["pair", "single"] if n < 2 or not v.symbolic else
                    [["pair"], ["single"]][i]) == "pair":
            a, la, ka = bound(v, "a%d" % i, meta)
            b, lb, kb = bound(v, "b%d" % i, meta)
            dims.append(v.join(":", [a, b]))
            lower.append(la)
            upper.append(lb)
            known = known and ka and kb
        else:
            a, la, ka = bound(v, "a%d" % i, meta)
            dims.append(a)
            lower.append("1")
            upper.append(la)
            known = known and ka
    var = mc.Var(dimensions=dims, standard_name="std", local_name="loc", type="real", kind="kp",
                 intent="in", active="T", optional="F")
    for shape in (False, True):
        out = v.call(var.dimstring_local_names, table, assume_shape=shape)
        v.prove(out.ok == known, "an unknown dimension name is an error",
                lambda: "%r: %r" % (dims, out))
        if known:
            want = ""
            if n:
                want = v.join("", ["(", v.join(",", [v.join(":", [a, "" if shape else b])
                                                     for a, b in zip(lower, upper)]), ")"])
            v.prove(v.eq(out.value, want), "bounds are the local names or integers of the dimensions",
                    lambda: "%r: %r, expected %r" % (dims, out.value, want))
    out = v.call(var.print_def_intent, table)
    v.prove(out.ok == known, "a declaration needs known dimensions")
    if known:
        want = v.join("", ["real(kp), intent(in), target :: loc", "(" if n else "",
                           v.join(",", [v.join(":", [a, ""]) for a in lower]), ")" if n else ""])
        v.prove(v.eq(out.value, want), "the declaration has these bounds",
                lambda: "%r -> %r" % (dims, out.value))


@contract(["mkcap.Var.print_def_intent", "mkcap.Var.print_def_local"], conc=2000,
          note="every type, kind and local name")
def declarations(v):
    mc = v.repo("mkcap")
    typ = v.choice("type", ["real", "integer", "logical", "character", "ddt"])
    if typ == "ddt":
        typ = "t_" + v.name("type_name", pool=["x", "my_type"], lower=True)
    kind = v.choice("kind", ["", "name", "len=*", "len=10"])
    if kind == "name":
        kind = "k_" + v.name("kind_name", pool=["phys", "dyn"])
    loc = v.name("loc", pool=["x", "y1"])
    intent = v.choice("intent", ["in", "out", "inout"])
    active = v.choice("active", ["T", "F", "flag > 0"])
    opt = v.choice("optional", ["T", "F"])
    rank = v.choice("rank", [0, 1, 2])
    ptr = v.choice("pointer", [False, True])
    std = typ in ("real", "integer", "logical", "character") if isinstance(typ, str) else False
    var = mc.Var(standard_name="s", local_name=loc, type=typ, kind=kind, intent=intent, active=active,
                 optional=opt, dimensions=["1:3"] * rank, pointer=ptr)
    bad = not std and kind != ""
    head = typ if std else v.join("", ["type(", typ, ")"])
    if std and kind != "":
        head = v.join("", [typ, "(", kind, ")"])
    out = v.call(var.print_def_intent, {})
    v.prove(out.ok == (opt == "F" and not bad), "host variables are not optional; types have no kind",
            lambda: repr(out))
    if out.ok:
        want = v.join("", [head, ", intent(", intent, "), ", "" if active == "T" else "optional, ",
                           "target :: ", loc, {0: "", 1: "(1:)", 2: "(1:,1:)"}[rank]])
        v.prove(v.eq(out.value, want), "type, kind, intent, name and bounds of the variable",
                lambda: "%r, expected %r" % (out.value, want))
    out = v.call(var.print_def_local, {})
    v.prove(out.ok == (active == "T" and not bad), "local variables are always active", lambda: repr(out))
    if out.ok:
        dim = {0: "", 1: ", dimension(:)", 2: ", dimension(:,:)"}[rank]
        if ptr:
            want = v.join("", [head, dim, ", pointer :: p => null()"])
        else:
            want = v.join("", [head, dim, ", allocatable" if rank else "", ", target :: ", loc])
        v.prove(v.eq(out.value, want), "type, kind, rank and name of the local variable",
                lambda: "%r, expected %r" % (out.value, want))


# --------------------------------------------------------------- argument lists
@contract(["mkstatic.create_argument_list_wrapped", "mkstatic.create_argument_list_wrapped_explicit"],
          cases=[0, 1, 2], conc=2000, note="up to two arguments, names of any length")
def argument_lists(v, n):
    """wrapping changes nothing but the layout"""
    check_argument_lists(v, n)


@contract(["mkstatic.create_argument_list_wrapped", "mkstatic.create_argument_list_wrapped_explicit"],
          sym=False, cases=[3, 5, 9], conc=1500, note="bounded: up to nine arguments")
def long_argument_lists(v, n):
    check_argument_lists(v, n)


def check_argument_lists(v, n):
    ms = v.repo("mkstatic")
    args = []
    for i in range(n):
        a = "a%d_" % i + v.name("arg%d" % i, pool=["x", "y" * 20, "long_name_" * 5])
        args.append(a)
    got = ms.create_argument_list_wrapped(list(args))
    more = v.choice("more", [False, True])
    exp = ms.create_argument_list_wrapped_explicit(list(args), more)

    def plain(text):
        return text.replace(" &\n                  ", "")
    v.prove(v.eq(plain(got), v.join(",", args)), "all arguments, once, in order",
            lambda: "%r -> %r" % (args, got))
    want = v.join(",", [v.join("=", [a, a]) for a in args])
    v.prove(v.eq(plain(exp), v.join("", [want, "," if more and n else ""])),
            "each argument is passed as itself, once, in order", lambda: "%r -> %r" % (args, exp))
    if not v.symbolic:
        ok = all(len(x) < 264 for text in (got, exp) for x in text.split("\n"))
        v.prove(ok, "lines stay short", lambda: got + "\n" + exp)


# ------------------------------------------------------- conversion of local names
@contract(["ccpp_prebuild.convert_local_name_from_new_metadata"], sym=False, conc=4000, budget=25,
          note="bounded: up to four variables in a module and a type, references nested up to twice")
def converted_local_names(v):
    pb, mc, cm = v.repo("ccpp_prebuild"), v.repo("mkcap"), v.repo("common")
    names = ["aa", "bb", "cc", "dd"]
    prefix = {"mod": "", "ty": v.choice("prefix", ["inst", "outer%inner"])}
    meta, where, text = {}, {}, {}
    for i, s in enumerate(names):
        kind = v.choice("in" + s, ["mod", "ty", "old"])
        where[s] = kind
        n = v.choice("rank" + s, [0, 0, 1, 2]) if i else 0
        idx = []
        for j in range(n):
            def one(t):
                return v.choice("x%s%d%s" % (s, j, t), names[:i] + ["1", "7"])
            f = v.choice("f%s%d" % (s, j), [":", "one", "pair"])
            idx.append(":" if f == ":" else one("a") if f == "one" else one("a") + ":" + one("b"))
        text[s] = (s.upper(), idx)
        cont = {"mod": cm.encode_container("mod"), "ty": cm.encode_container("mod", "ty"),
                "old": cm.encode_container("oldmod")}[kind]
        loc = s.upper() + ("(" + v.choice("sep", [",", ", "]).join(idx) + ")" if n else "")
        meta[s] = [mc.Var(standard_name=s, local_name=loc, container=cont)]

    def spec(s):
        base, idx = text[s]
        if where[s] == "old":
            return meta0[s]
        out = []
        for x in idx:
            out.append(x if x == ":" else ":".join(p if p.isdigit() else spec(p) for p in x.split(":")))
        r = base + ("(" + ",".join(out) + ")" if idx else "")
        return prefix["ty"] + "%" + r if where[s] == "ty" else r
    meta0 = {s: meta[s][0].local_name for s in names}
    conf = {"mod": {"mod": prefix["mod"], "ty": prefix["ty"]}}
    done = []
    for s in v.choice("order", [names, names[::-1], ["cc", "aa", "dd", "bb"]]):
        out = v.call(pb.convert_local_name_from_new_metadata, meta, s, conf, done)
        v.prove(out.ok and out.value[0] and out.value[1] == spec(s),
                "the converted name has the type prefix and the local names of its indices",
                lambda: "%r %r %s -> %r, expected %r" % (meta0, where, s, out, spec(s)))
        meta[s][0].local_name = out.value[1]
