"""C09: variable dictionaries behave as scoped maps keyed by standard name."""
from pyvc.harness import contract, stand_in

INTENTS = ["in", "out", "inout"]


class Ctx:
    line_num = 3

    def __format__(self, spec):
        return "f.meta:4"


class Src:
    name, ptype, context = "src", "scheme", Ctx()


class Verdict:
    def __init__(self, ok):
        self.compat, self.incompat_reason = ok, "" if ok else "units"


class StubVarSpec:
    """assumed contract of Var as far as a dictionary uses it (Var itself: C02, C22 and
    add_and_look_up_real_variables below)"""

    def __init__(self, std, loc, intent="in", protected=False, compat=True):
        self.p = {"standard_name": std, "local_name": loc, "intent": intent, "protected": protected}
        self.ok = compat

    source, context, parent = Src(), Ctx(), None
    var = property(lambda self: self)

    def get_prop_value(self, n):
        return self.p[n]

    def compatible(self, other, run_env, is_tend=False):
        return Verdict(other.ok)

    def adjust_intent(self, other):
        self.p["intent"] = merged(self.p["intent"], other.p["intent"])

    def clone(self, new):
        return type(self)(self.p["standard_name"], new, self.p["intent"], self.p["protected"])

    def array_ref(self, local_name=None):
        return None


def stub(v):
    return stand_in(StubVarSpec, v.repo("metavar").Var)


def merged(a, b):
    """least intent that permits every access a or b permits"""
    rd = a in ("in", "inout") or b in ("in", "inout")
    wr = a in ("out", "inout") or b in ("out", "inout")
    return "inout" if rd and wr else "in" if rd else "out"


def env(v):
    return v.repo("metavar")._MVAR_DUMMY_RUN_ENV


def errors(v):
    pe = v.repo("parse_tools")
    return (pe.CCPPError, pe.ParseSyntaxError, pe.ParseInternalError)


class Model:
    """documented dictionary: list of [standard name, local name (lower case), variable]"""

    def __init__(self, v):
        self.v, self.e = v, []

    def std(self, s):
        for x in self.e:
            if self.v.eq(x[0], s):
                return x
        return None

    def loc(self, n):
        n = self.v.lower(n)
        for x in self.e:
            if self.v.eq(x[1], n):
                return x
        return None


def agree(v, d, m, stds, locs, hist):
    """the dictionary answers every question as the model does"""
    for s in stds:
        x = m.std(s)
        got = d.find_variable(standard_name=s, any_scope=False)
        v.prove(got is (x[2] if x else None), "look-up by standard name returns the variable added",
                lambda: "%s: %r -> %r" % (hist, s, got))
    for n in locs:
        x = m.loc(n)
        out = v.call(d.find_local_name, n, catch=errors(v))
        v.prove(out.ok and out.value is (x[2] if x else None),
                "look-up by local name returns the variable added, ignoring case",
                lambda: "%s: %r -> %r" % (hist, n, out))
    v.prove(len(d.prop_list("local_name")) == len(m.e), "one entry per variable added and not removed",
            lambda: hist)


def local(v, tag, pool):
    """a local name, either case"""
    return v.choice("case_" + tag, ["l_", "L_"]) + v.name("loc_" + tag, pool=pool, lower=True)


@contract(["metavar.VarDictionary.add_variable", "metavar.VarDictionary.remove_variable",
           "metavar.VarDictionary.find_variable", "metavar.VarDictionary.find_local_name",
           "metavar.VarDictionary.prop_list"], cases=[1, 2, 3], conc=3000,
          note="Var by the assumed contract StubVarSpec; histories of up to 3 operations, all names")
def histories(v, n):
    mv = v.repo("metavar")
    d, m = mv.VarDictionary("dict", env(v)), Model(v)
    stds, locs, hist = [], [], []
    for i in range(n):
        op = v.choice("op%d" % i, ["add", "remove"] if i else ["add"])
        s = "s_" + v.name("std%d" % i, pool=["a", "b"], lower=True)
        stds.append(s)
        if op == "remove":
            out = v.call(d.remove_variable, s, catch=errors(v))
            v.prove(out.ok, "removal is always possible")
            x = m.std(s)
            if x:
                m.e.remove(x)
            hist.append(("remove", s))
        else:
            loc = local(v, str(i), ["x", "y"])
            locs.append(loc)
            x, y = m.std(s), m.loc(loc)
            eok = v.choice("exists_ok%d" % i, [False, True]) if i else False
            var = stub(v)(s, loc)
            hist.append(("add", s, loc, eok))
            if eok and x is not None:
                v.assume(x is y)          # documented use: an identical copy
            out = v.call(d.add_variable, var, env(v), exists_ok=eok, catch=errors(v))
            bad = (x is not None and not eok) or (y is not None and y is not x)
            v.prove(out.ok == (not bad), "a conflicting variable is rejected, any other accepted",
                    lambda: "%s -> %r" % (hist, out))
            if not bad and x is None:
                m.e.append([s, v.lower(loc), var])
        agree(v, d, m, stds, locs, hist)


@contract(["metavar.VarDictionary.add_variable"], cases=[1, 2], conc=2000,
          note="Var by the assumed contract StubVarSpec")
def unique_names_on_request(v, n):
    """gen_unique: a colliding local name is replaced, and the variable is found under the new name"""
    mv = v.repo("metavar")
    d, m = mv.VarDictionary("dict", env(v)), Model(v)
    hist = []
    base = v.name("base", pool=["x", "y"], lower=True)
    v.assume(v.len(base) <= 40)
    for i in range(n + 1):
        s = "s%d_" % i + v.name("std%d" % i, pool=["a", "b"], lower=True)
        loc = v.choice("case%d" % i, ["l_", "L_"]) + base
        var = stub(v)(s, loc)
        out = v.call(d.add_variable, var, env(v), gen_unique=True, exists_ok=v.choice(
            "eok%d" % i, [False, True]), catch=errors(v))
        hist.append((s, loc))
        v.prove(out.ok, "a collision is resolved", lambda: "%s -> %r" % (hist, out))
        got = d.find_variable(standard_name=s, any_scope=False)
        v.prove(got is not None and v.eq(got.p["standard_name"], s), "the variable is found", lambda: hist)
        nl = got.p["local_name"]
        if i == 0:
            v.prove(v.eq(nl, loc), "no new name without a collision", lambda: hist)
        v.prove(m.loc(nl) is None, "local names stay distinct, ignoring case",
                lambda: "%s -> %r in %r" % (hist, nl, [x[1] for x in m.e]))
        m.e.append([s, v.lower(nl), got])
        for x in m.e:
            f = d.find_local_name(x[1])
            v.prove(f is x[2], "every variable is found under its own local name",
                    lambda: "%s: %r" % (hist, x[1]))


@contract(["metavar.VarDictionary.add_variable", "metavar.Var.adjust_intent"], conc=1500,
          note="Var by the assumed contract StubVarSpec for compatibility")
def repeated_arguments(v):
    """adding the same argument again"""
    mv = v.repo("metavar")
    d = mv.VarDictionary("dict", env(v))
    s = "s_" + v.name("std", pool=["a", "b"], lower=True)
    loc = "l_" + v.name("loc", pool=["a", "b"], lower=True)
    other = stub(v)("o_" + s, "other")
    d.add_variable(other, env(v))
    i1, i2 = v.choice("i1", INTENTS), v.choice("i2", INTENTS)
    ok = v.choice("compatible", [True, False])
    a = stub(v)(s, loc, i1)
    d.add_variable(a, env(v))
    adj = v.choice("adjust", [False, True])
    out = v.call(d.add_variable, stub(v)(s, loc, i2, compat=ok), env(v), exists_ok=True,
                 adjust_intent=adj, catch=errors(v))
    good = ok and (adj or i1 == i2)
    v.prove(out.ok == good, "incompatible variables and unadjusted intents are rejected",
            lambda: "%s %s %s -> %r" % (i1, i2, ok, out))
    got = d.find_variable(standard_name=s, any_scope=False)
    v.prove(got is a, "the entry is kept")
    if good:
        v.prove(got.p["intent"] == merged(i1, i2),
                "the merged intent permits every access either one permits",
                lambda: "%s + %s -> %s" % (i1, i2, got.p["intent"]))
    else:
        v.prove(got.p["intent"] == i1, "a rejected addition changes nothing")
    v.prove(d.find_variable(standard_name="o_" + s) is other and other.p["intent"] == "in",
            "other entries are unchanged")


@contract(["metavar.VarDictionary.find_variable", "metavar.VarDictionary.find_local_name",
           "metavar.VarDictionary.variable_list"], conc=2000,
          cases=[(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (0, 1, 0), (0, 0, 0)],
          note="Var by the assumed contract StubVarSpec")
def enclosing_scopes(v, has):
    """a chain of three scopes"""
    mv = v.repo("metavar")
    outer = mv.VarDictionary("outer", env(v))
    mid = mv.VarDictionary("mid", env(v), parent_dict=outer)
    inner = mv.VarDictionary("inner", env(v), parent_dict=mid)
    put = []
    for i, d in enumerate((outer, mid, inner)):
        if has[i]:
            s = "s_" + v.name("std%d" % i, pool=["a", "b"], lower=True)
            n = "lL"[i % 2] + "_" + v.name("loc%d" % i, pool=["x", "y"], lower=True)
            var = stub(v)(s, n)
            d.add_variable(var, env(v))
            put.append((d, s, n, var))
    s = "s_" + v.name("want", pool=["a", "b", "c"], lower=True)
    n = v.choice("case", ["l_", "L_"]) + v.name("wantloc", pool=["x", "y", "z"], lower=True)

    def spec(scopes, k, key):
        for sc in scopes:
            for d, a, b, var in put:
                if d is sc and (v.eq(a, key) if k == "s" else v.eq(v.lower(b), v.lower(key))):
                    return var
        return None
    chain = [inner, mid, outer]
    for i, d in enumerate(chain):
        v.prove(d.find_variable(standard_name=s, any_scope=False) is spec([d], "s", s),
                "only the scope itself is searched unless asked")
        v.prove(d.find_variable(standard_name=s, any_scope=True) is spec(chain[i:], "s", s),
                "enclosing scopes are searched from the inside out when asked",
                lambda: repr([(x.name, a, b) for x, a, b, _ in put]))
        v.prove(d.find_local_name(n) is spec([d], "n", n), "local names: only the scope itself")
        v.prove(d.find_local_name(n, any_scope=True) is spec(chain[i:], "n", n),
                "local names: enclosing scopes when asked")
    want = [var for x in (outer, mid, inner) for d, _, _, var in put if d is x]
    got = inner.variable_list(recursive=True)
    v.prove(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
            "the recursive list holds every variable of every enclosing scope")


# ------------------------------------------------------- real variables, bounded
def real_var(v, std, loc, intent="in", units="m", protected=False, ptype="scheme"):
    mv = v.repo("metavar")
    pe = v.repo("parse_tools")
    props = {"local_name": loc, "standard_name": std, "units": units, "dimensions": "()",
             "type": "real", "kind": "kind_phys"}
    if intent:
        props["intent"] = intent
    if protected:
        props["protected"] = "True"
    return mv.Var(props, pe.ParseSource("src", ptype, pe.ParseContext(linenum=1, filename="f.meta")),
                  env(v))


@contract(["metavar.VarDictionary.add_variable", "metavar.Var.adjust_intent", "metavar.Var.clone",
           "metavar.Var.compatible", "metavar.VarDictionary.__init__", "metavar.VarDictionary.merge",
           "metavar.VarDictionary.remove_variable"], sym=False, conc=6000, budget=40,
          note="bounded: histories of up to 8 operations with real Var objects")
def add_and_look_up_real_variables(v):
    mv = v.repo("metavar")
    d = mv.VarDictionary("dict", env(v))
    m = Model(v)
    kept = {}                       # standard name -> (local name, intent, units)
    S, L = ["aa", "bb", "cc"], ["x", "X", "y", "xy", "Y"]
    hist = []
    for i in range(v.choice("n", list(range(1, 9)))):
        op = v.choice("op%d" % i, ["add", "add", "add", "remove", "copy", "merge"])
        s = v.choice("s%d" % i, S)
        if op == "remove":
            d.remove_variable(s)
            kept.pop(s, None)
            hist.append(("remove", s))
        elif op == "copy":
            how = v.choice("how%d" % i, ["dict", "list", "vardict"])
            src = {"dict": dict(d), "list": d.variable_list(), "vardict": d}[how]
            d = mv.VarDictionary("copy", env(v), variables=src)
            hist.append(("copy", how))
        elif op == "merge":
            e = mv.VarDictionary("merged", env(v))
            e.merge(d, env(v))
            d = e
            hist.append(("merge",))
        else:
            loc = v.choice("l%d" % i, L)
            it = v.choice("i%d" % i, INTENTS)
            un = v.choice("u%d" % i, ["m", "m", "m", "K", "km"])
            kw = {k: True for k in ("exists_ok", "gen_unique", "adjust_intent")
                  if v.choice(k + str(i), [False, True])}
            hist.append(("add", s, loc, it, un, kw))
            if s in kept and kw.get("exists_ok") and loc.lower() != kept[s][0].lower():
                hist.pop()
                continue
            clash = [t for t in kept if t != s and kept[t][0].lower() == loc.lower()]
            bad = s in kept and not kw.get("exists_ok")
            if s in kept and not bad:
                bad = "K" in (un, kept[s][2]) and un != kept[s][2]
                bad = bad or (it != kept[s][1] and not kw.get("adjust_intent"))
            if clash and not kw.get("gen_unique"):
                bad = True
            out = v.call(d.add_variable, real_var(v, s, loc, it, un), env(v), catch=errors(v), **kw)
            v.prove(out.ok == (not bad), "a conflicting variable is rejected, any other accepted",
                    lambda: "%s -> %r" % (hist, out))
            if not bad:
                if s in kept:
                    kept[s] = (kept[s][0], merged(kept[s][1], it), kept[s][2])
                else:
                    nl = d.find_variable(standard_name=s).get_prop_value("local_name")
                    v.prove(nl == loc or clash, "no new local name without a collision", lambda: hist)
                    v.prove(all(kept[t][0].lower() != nl.lower() for t in kept),
                            "local names stay distinct, ignoring case", lambda: hist)
                    kept[s] = (nl, it, un)
        for s in S:
            x = d.find_variable(standard_name=s, any_scope=False)
            v.prove((x is not None) == (s in kept), "look-up by standard name", lambda: hist)
            if x is not None:
                got = tuple(x.get_prop_value(k) for k in ("standard_name", "local_name", "intent", "units"))
                v.prove(got == (s,) + kept[s], "the entry is the variable added, with the merged intent",
                        lambda: "%s: %r, expected %r" % (hist, got, kept[s]))
        for n in L:
            want = [s for s in kept if kept[s][0].lower() == n.lower()]
            out = v.call(d.find_local_name, n, catch=errors(v))
            v.prove(out.ok and (out.value.get_prop_value("standard_name") == want[0] if want
                                else out.value is None), "look-up by local name",
                    lambda: "%s: %s -> %r" % (hist, n, out))
        v.prove(sorted(d.prop_list("standard_name")) == sorted(kept), "nothing else is in it",
                lambda: hist)


@contract(["metavar.Var.adjust_intent"], conc=300, sym=False,
          note="exhaustive over intents and protection")
def adjusting_an_intent(v):
    i1, i2 = v.choice("i1", INTENTS + [None]), v.choice("i2", INTENTS + [None])
    prot = v.choice("protected", [False, True])
    host = i1 is None
    if prot and not host:
        prot = False
    a = real_var(v, "aa", "x", i1, protected=prot, ptype="module" if host else "scheme")
    b = real_var(v, "aa", "y", i2, ptype="module" if i2 is None else "scheme")
    out = v.call(a.adjust_intent, b, catch=errors(v))
    w = i2 in ("out", "inout")
    v.prove(out.ok == (not (prot and w)), "a protected variable may not be written", lambda: repr(out))
    if out.ok:
        j = i2 or "in"
        v.prove(a.get_prop_value("intent") == (merged(i1, j) if i1 else j),
                "the merged intent permits every access either one permits")
    v.prove(b.get_prop_value("intent") == (i2 if i2 else b.get_prop_value("intent")),
            "the other variable is unchanged")
