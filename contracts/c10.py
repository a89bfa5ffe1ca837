"""C10: invented variable names are legal and never collide."""
from pyvc.harness import contract
from contracts.c09 import stub, env, errors

ID = "[A-Za-z][A-Za-z0-9_]*"
FN = ["metavar.VarDictionary.new_internal_variable_name", "metavar.VarDictionary.add_variable"]


def legal(v, d, nm, maxlen, used, info):
    v.prove(v.matches(nm, ID), "an invented name is a legal identifier", info)
    v.prove(v.len(nm) <= maxlen, "an invented name is no longer than permitted", info)
    for u in used:
        v.prove(v.Not(v.eq(v.lower(nm), v.lower(u))),
                "an invented name differs from every name in use, ignoring case", info)


@contract(FN, cases=[(0, 1), (1, 1), (2, 1), (2, 2)], conc=2000,
          note="Var by the assumed contract StubVarSpec (c09.py); names of any length up to 50")
def any_prefix(v, case):
    """k names in use (any), r requests with the same prefix (any)"""
    k, r = case
    d = v.repo("metavar").VarDictionary("dict", env(v))
    used = []
    for i in range(k):
        n = v.name("used%d" % i, pool=["x", "x1", "X2", "xy"], lower=True)
        for u in used:
            v.assume(v.Not(v.eq(u, n)))
        used.append(n)
        d.add_variable(stub(v)("s%d" % i, n), env(v))
    prefix = v.name("prefix", pool=["x", "x1", "xy"], lower=True)
    v.assume(v.len(prefix) <= 50)
    got = []
    for j in range(r):
        out = v.call(d.new_internal_variable_name, prefix=prefix, catch=errors(v))
        info = lambda: "prefix %r, in use %r -> %r" % (prefix, used, out)
        v.prove(out.ok, "a name is found", info)
        nm = out.value
        legal(v, d, nm, 63, used, info)
        if not used:
            v.prove(v.eq(nm, prefix), "the requested name is used when it is free", info)
        used.append(nm)
        d.add_variable(stub(v)("t%d" % j, nm), env(v))


ALPH = "abAB1_"


@contract(FN, cases=[(p, m, r) for p in (1, 3, 5) for m in (1, 2, 3, 4, 7) for r in (1, 2)], conc=400,
          note="names of up to 5 characters from %r, every maximum length up to 7" % ALPH)
def short_names(v, case):
    """mixed case, truncation and exhaustion: every character symbolic"""
    plen, maxlen, r = case
    d = v.repo("metavar").VarDictionary("dict", env(v))
    used = []
    for i, n in enumerate((2, 3)):
        nm = v.choice("h%d" % i, ["a", "A"]) + v.chars("used%d" % i, n - 1, ALPH)
        used.append(nm)
        d.add_variable(stub(v)("s%d" % i, nm), env(v))
    prefix = v.choice("hp", ["a", "A"]) + v.chars("prefix", plen - 1, ALPH)
    for j in range(r):
        out = v.call(d.new_internal_variable_name, prefix=prefix, max_len=maxlen, catch=errors(v))
        info = lambda: "prefix %r max %d, in use %r -> %r" % (prefix, maxlen, used, out)
        v.prove(out.ok or maxlen < 3, "a name is found when there is room", info)
        if out.ok:
            legal(v, d, out.value, maxlen, used, info)
            used.append(out.value)
            d.add_variable(stub(v)("t%d" % j, out.value), env(v))


@contract(FN, sym=False, conc=4000, budget=40, note="bounded: up to 30 requests, names up to 70 characters")
def many_requests(v):
    dn = v.choice("dict", ["who", "Who", "a_long_suite_name_" * 3 + "x", "w"])
    d = v.repo("metavar").VarDictionary(dn, env(v))
    used = []
    pre = v.choice("pre", [0, 3, 20])
    stem = v.choice("stem", ["a", "Tmp", "x" * 62, "y" * 63, "Z" * 64, "w_" * 40, dn + "_var"])
    for i in range(pre):
        n = v.choice("n%d" % i, [stem[:60] + str(i), stem[:62].upper(), stem[:61] + str(i % 10),
                                 stem[:63].lower(), "q%d" % i, stem[:60] + str(i + 2) + "z"])
        if n.lower() not in [u.lower() for u in used]:
            used.append(n)
            d.add_variable(stub(v)("s%d" % i, n), env(v))
    maxlen = v.choice("max", [63, 63, 10, 31])
    for j in range(v.choice("requests", [1, 2, 12, 30])):
        px = v.choice("p%d" % j, [None, stem, stem[:5], stem.upper(), stem[:63], "q1"])
        kw = {} if maxlen == 63 else {"max_len": maxlen}
        out = v.call(d.new_internal_variable_name, prefix=px, catch=errors(v), **kw)
        info = lambda: "prefix %r max %d, in use %r -> %r" % (px, maxlen, used, out)
        v.prove(out.ok, "a name is found", info)
        legal(v, d, out.value, maxlen, used, info)
        used.append(out.value)
        d.add_variable(stub(v)("t%d" % j, out.value), env(v))


@contract(["metavar.VarLoopSubst.add_local", "metavar.VarDictionary.add_variable"], sym=False, conc=500,
          note="bounded; real Var objects")
def colliding_variables_renamed(v):
    """gen_unique additions of real variables: the names that end up in the dictionary"""
    from contracts.c09 import real_var
    d = v.repo("metavar").VarDictionary("dict", env(v))
    n = v.choice("n", [2, 3, 5])
    names = [v.choice("l%d" % i, ["x", "X", "x1", "xx", "X2", "y" * 63, "Y" * 63]) for i in range(n)]
    for i in range(n):
        out = v.call(d.add_variable, real_var(v, "std%d" % i, names[i]), env(v), gen_unique=True,
                     catch=errors(v))
        v.prove(out.ok, "a collision is resolved", lambda: "%r -> %r" % (names, out))
    got = d.prop_list("local_name")
    v.prove(len({g.lower() for g in got}) == n, "all names differ, ignoring case",
            lambda: "%r -> %r" % (names, got))
    for g in got:
        v.prove(v.matches(g, ID) and len(g) <= 63, "legal names", lambda: repr(got))
