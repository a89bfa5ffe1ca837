"""C21: parse positions and region nesting are tracked exactly."""
from pyvc.harness import contract, Misfit

PO = "parse_tools.parse_object.ParseObject."
PC = "parse_tools.parse_source.ParseContext."
BS = chr(92)


def errors(v):
    t = v.repo("parse_tools")
    return (t.CCPPError,)


class Lines:
    """lines of a file of any length: line i is the value of an uninterpreted function"""

    def __init__(self, v):
        import z3
        from pyvc import sstr
        self.f = z3.Function("line", z3.IntSort(), z3.StringSort())
        self.n = v.int("nlines", 0)
        self.sstr, self.z3 = sstr, z3

    def pv_len(self):
        return self.n

    def term(self, i):
        from pyvc.core import zi
        return self.f(zi(i))

    def __getitem__(self, i):
        from pyvc.core import E
        t = self.term(i)
        E.add(self.z3.InRe(t, self.z3.Star(self.sstr.re_of_set(self.sstr.ASCII))))
        return self.sstr.mk([self.sstr.Atom(t, None, False)])


class Ghost:
    """joined(i): text of the logical line that starts at line i; end(i): first line after it"""

    def __init__(self):
        import z3
        self.j = z3.Function("joined", z3.IntSort(), z3.StringSort())
        self.e = z3.Function("end", z3.IntSort(), z3.IntSort())

    def joined(self, i):
        from pyvc import sstr
        from pyvc.core import zi
        return sstr.mk([sstr.Atom(self.j(zi(i)), None, False)])

    def end(self, i):
        from pyvc.core import zi, mkint
        return mkint(self.e(zi(i)))


NEXT = "_ParseObject__line_next"


def get(po, name):
    if name not in vars(po):
        raise Misfit("ParseObject has no %s" % name)
    return vars(po)[name]


@contract([PO + "curr_line", PO + "next_line"], conc=0, cases=["curr", "next"],
          note="joined lines: induction on the lines left, the recursive call by its contract")
def logical_line(v, case):
    """for any number of lines with any contents"""
    m = v.repo("parse_tools.parse_object").ParseObject
    ln = Lines(v)
    g = Ghost()
    start = v.int("start", 0)
    po = m("f.F90", ln, start)
    get(po, NEXT)
    if case == "curr":
        i = start

        def next_contract(obj, *a):
            k = get(obj, NEXT)
            v.prove(v.And(k > i, k <= ln.n), "the recursion moves forward")
            obj.line_num = k
            if k < ln.n:
                setattr(obj, NEXT, g.end(k))
                v.assume(g.end(k) > k)
                v.assume(g.end(k) <= ln.n)
                return g.joined(k), k
            return None, k
        v.stub(m.next_line, next_contract)
        before = get(po, NEXT)
        out = v.call(po.curr_line)
        v.prove(out.ok, "no error")
        text, num = out.value
        v.prove(v.eq(num, i), "the current position is reported")
        v.prove(v.eq(po.line_num, i), "reading the current line does not move")
        if i < ln.n:
            raw = ln[i]
            r = raw.rstrip()
            nxt = i + 1
            if r.endswith(BS):
                if nxt < ln.n:
                    v.prove(v.eq(text, r[:v.len(r) - 1] + g.joined(nxt)),
                            "a continued line is joined with the rest")
                    v.prove(v.eq(get(po, NEXT), g.end(nxt)), "continuation lines are consumed")
                else:
                    v.prove(v.eq(text, r[:v.len(r) - 1]), "a continued last line stands alone")
                    v.prove(v.eq(get(po, NEXT), nxt), "the end follows the last line")
            else:
                v.prove(v.eq(text, r), "the current line is returned")
                v.prove(v.eq(get(po, NEXT), nxt), "the following line is next")
            v.prove(v.And(get(po, NEXT) > i, get(po, NEXT) <= ln.n), "progress within the file")
        else:
            v.prove(text is None, "no line after the end")
            v.prove(v.eq(get(po, NEXT), before), "the end is not passed")
    else:
        k = v.int("k", 0)
        setattr(po, NEXT, k)

        def curr_contract(obj, *a):
            i = obj.line_num
            if i < ln.n:
                setattr(obj, NEXT, g.end(i))
                return g.joined(i), i
            return None, i
        v.stub(m.curr_line, curr_contract)
        out = v.call(po.next_line)
        v.prove(out.ok, "no error")
        text, num = out.value
        v.prove(v.And(v.eq(num, k), v.eq(po.line_num, k)), "the next line is where the last ended")
        if k < ln.n:
            v.prove(v.eq(text, g.joined(k)), "the next logical line is returned")
            v.prove(v.eq(get(po, NEXT), g.end(k)), "the end of that line is remembered")
        else:
            v.prove(text is None, "no line after the end")
            v.prove(v.eq(get(po, NEXT), k), "the end is not passed")


def split_lines(lines, start):
    """oracle: [(first line, text)] of the logical lines"""
    def logical(i):
        t = lines[i].rstrip()
        if not t.endswith(BS):
            return t, i + 1
        if i + 1 >= len(lines):
            return t[:-1], i + 1
        rest, end = logical(i + 1)
        return t[:-1] + rest, end
    res, i = [], start
    while i < len(lines):
        t, j = logical(i)
        res.append((i, t))
        i = j
    return res


LINE = ["", "a", " b ", "c" + BS, "d " + BS, BS, "e" + BS + "  ", "x" + BS + "y", " " + BS + BS]


@contract([PO + "curr_line", PO + "next_line", PO + "__init__", PO + "valid_line"], sym=False, conc=6000,
          note="bounded: files of up to 4 lines out of %d kinds" % len(LINE))
def stepping(v):
    m = v.repo("parse_tools.parse_object").ParseObject
    n = v.choice("n", [0, 1, 2, 3, 4])
    lines = [v.choice("l%d" % i, LINE) for i in range(n)]
    start = v.choice("start", [0, 0, 1])
    po = m("f.F90", list(lines), line_start=start)
    want = split_lines(lines, start)
    got, line = [], po.curr_line()
    info = lambda: "%r from %d: got %r, want %r" % (lines, start, got, want)
    twice = v.bool("twice")
    for _ in range(n + 2):
        text, num = line
        if twice:
            v.prove(po.curr_line() == line, "reading the current line again gives it again", info)
        v.prove(po.line_num == num, "the reported line is the current line", info)
        if text is None:
            break
        v.prove(po.valid_line(), "a returned line is valid", info)
        v.prove("{}".format(po) == "f.F90:%d" % (num + 1), "the position names the line", info)
        got.append((num, text))
        line = po.next_line()
    v.prove(got == want, "every line is visited once, in order", info)
    v.prove(po.next_line()[0] is None and not po.valid_line(), "stepping stops at the end", info)
    # back to any line
    for k in range(-1, n + 2):
        out = v.call(po.reset_pos, k)
        v.prove(out.ok == (0 <= k < n), "a position is accepted iff it exists", info)
        if out.ok:
            v.prove(po.line_num == k, "the position is set", info)
            t, num = po.next_line()
            v.prove((num, t) == split_lines(lines, k)[0], "stepping restarts at the position", info)


@contract([PO + "reset_pos", PO + "peek_line", PO + "write_line"], conc=500)
def positions(v):
    m = v.repo("parse_tools.parse_object").ParseObject
    t = v.repo("parse_tools")
    lines = [v.str("l0"), v.str("l1"), v.str("l2")]
    old = list(lines)
    po = m("f.F90", lines)
    k = v.int("k", -3, 5)
    what = v.choice("what", ["reset", "peek", "write"])
    inside = v.And(k >= 0, k < 3)
    if what == "reset":
        out = v.call(po.reset_pos, k, catch=errors(v))
        v.prove(v.Iff(out.ok, inside), "a position is accepted iff it exists")
        if out.ok:
            v.prove(v.eq(po.line_num, k), "the position is set")
        else:
            v.prove(v.eq(po.line_num, 0), "a rejected position changes nothing")
    elif what == "peek":
        out = v.call(po.peek_line, k, catch=errors(v))
        v.prove(out.ok, "peeking is never an error")
        v.prove(v.Iff(out.value is not None, inside), "a line is returned iff it exists")
        for i in range(3):
            v.prove(v.Implies(v.eq(k, i), out.value is not None and v.eq(out.value, old[i])),
                    "the line asked for is returned")
        v.prove(v.eq(po.line_num, 0), "peeking does not move")
    else:
        new = v.str("new")
        out = v.call(po.write_line, k, new, catch=errors(v))
        v.prove(v.Iff(out.ok, inside), "a line is written iff it exists")
        for i in range(3):
            if v.And(out.ok, v.eq(k, i)):
                v.prove(v.eq(po.peek_line(i), new), "the line is replaced")
            else:
                v.prove(v.eq(po.peek_line(i), old[i]), "other lines are unchanged")
        v.prove(v.eq(po.line_num, 0), "writing does not move")


@contract([PC + "__format__", PC + "__str__", PC + "increment", PC + "__init__",
           "parse_tools.parse_source.context_string"], conc=500)
def position_text(v):
    t = v.repo("parse_tools")
    fn = v.str("file", charset="abz_.09", nonempty=True)
    k = v.int("line", 0, pool=[0, 1, 9, 31])
    ctx = t.ParseContext(linenum=k, filename=fn)
    j = v.int("inc", 0, pool=[0, 1, 12])
    v.prove(v.eq(ctx.line_num, k), "the given line is the position")
    v.prove(v.eq(ctx.filename, fn), "the given file is the file")
    text = v.fmt("{}", ctx)
    v.prove(v.eq(text, v.fmt("{}:{}", fn, k + 1)), "the position names file and line")
    v.prove(v.eq(v.repo("parse_tools.parse_source").context_string(ctx),
                 v.fmt(", at {}:{}", fn, k + 1)), "error messages name file and line")
    v.prove(v.eq(v.repo("parse_tools.parse_source").context_string(ctx, with_comma=False),
                 v.fmt("{}:{}", fn, k + 1)), "error messages name file and line")
    ctx.increment(j)
    v.prove(v.eq(ctx.line_num, k + j), "increment moves by the given number of lines")
    copy = t.ParseContext(linenum=7, filename="other", context=ctx)
    v.prove(v.And(v.eq(copy.line_num, k + j), v.eq(copy.filename, fn)),
            "a copied context is at the same place")
    copy.increment()
    v.prove(v.eq(copy.line_num, k + j + 1), "increment moves by one line")
    v.prove(v.eq(ctx.line_num, k + j), "moving a copy leaves the original")


@contract(["parse_tools.parse_source.context_string", PC + "__format__"], sym=False, conc=200,
          note="bounded: directories")
def position_text_nodir(v):
    t = v.repo("parse_tools")
    d = v.choice("dir", ["", "a/", "/x/y/"])
    k = v.choice("line", [None, 0, 5])
    ctx = t.ParseContext(linenum=k, filename=d + "f.F90")
    for nodir in (False, True):
        for comma in (False, True):
            got = v.repo("parse_tools.parse_source").context_string(ctx, with_comma=comma, nodir=nodir)
            want = ("" if nodir else d) + "f.F90" + ("" if k is None else ":%d" % (k + 1))
            if comma:
                want = (", in " if k is None else ", at ") + want
            v.prove(got == want, "error messages name file and line", lambda: "%r, want %r" % (got, want))


def mkctx(v, depth, names=True):
    ctx = v.repo("parse_tools").ParseContext(linenum=3, filename="f.F90")
    model = []
    for i in range(depth):
        ty = v.name("type%d" % i, pool=["MODULE", "TYPE"])
        nm = v.name("name%d" % i, pool=["a", "b"]) if v.bool("named%d" % i) else None
        ctx.enter_region(ty, region_name=nm)
        model.append([ty, nm])
    return ctx, model


def regions(ctx):
    return [[r[0], r[1]] for r in [ctx.regions[i] for i in range(len(ctx.regions))]]


def same_regions(v, ctx, model):
    got = regions(ctx)
    if len(got) != len(model):
        return False
    cs = []
    for (a, b), (c, d) in zip(got, model):
        cs.append(v.eq(a, c))
        cs.append((b is None) == (d is None) and (b is None or v.eq(b, d)))
    return v.And(*cs) if cs else True


@contract([PC + "enter_region", PC + "leave_region", PC + "in_region", PC + "curr_region",
           "parse_tools.parse_source.ContextRegion.push", "parse_tools.parse_source.ContextRegion.pop"],
          cases=[0, 1, 2, 3], conc=3000, note="region stacks of up to 3 regions with any types and names")
def nesting(v, depth):
    ctx, model = mkctx(v, depth)
    info = lambda: "regions %r" % (model,)
    v.prove(same_regions(v, ctx, model), "entered regions are open, innermost last", info)
    ty = v.name("type", pool=["MODULE", "TYPE"])
    nm = v.name("name", pool=["a", "b"]) if v.bool("named") else None
    inner = model[-1] if model else None
    sametype = v.eq(inner[0], ty) if inner else False
    both = inner is not None and nm is not None and inner[1] is not None
    samename = v.eq(inner[1], nm) if both else (inner is not None and nm is None)
    what = v.choice("op", ["leave", "enter", "in"])
    if what == "leave":
        out = v.call(ctx.leave_region, ty, region_name=nm, catch=errors(v))
        v.prove(v.Iff(out.ok, v.And(sametype, samename)),
                "a region can be left iff it is the innermost one", info)
        if out.ok:
            v.prove(same_regions(v, ctx, model[:-1]), "leaving closes the innermost region only", info)
    elif what == "enter":
        ok = v.bool("nested_ok")
        out = v.call(ctx.enter_region, ty, region_name=nm, nested_ok=ok, catch=errors(v))
        inside = v.Or(False, *[v.eq(r[0], ty) for r in model])
        v.prove(v.Iff(out.ok, v.Or(ok, v.Not(inside))),
                "an illegal nesting is an error", info)
        v.prove(same_regions(v, ctx, model + [[ty, nm]] if out.ok else model),
                "entering adds the region innermost", info)
    else:
        out = v.call(ctx.in_region, ty, region_name=nm)
        v.prove(out.ok, "no error", info)
        exact = v.And(sametype, samename) if nm is not None else v.And(
            sametype, inner is not None and inner[1] is None)
        v.prove(v.Iff(out.value, exact), "in_region is true for the innermost region only", info)
        v.prove(same_regions(v, ctx, model), "asking changes nothing", info)


@contract([PC + "enter_region", PC + "leave_region", PC + "region_str"], sym=False, conc=3000,
          note="bounded: histories of up to 10 operations, also on a copied context")
def histories(v):
    t = v.repo("parse_tools")
    ctx = t.ParseContext(linenum=3, filename="f.F90")
    model = []
    n = v.choice("n", [3, 6, 10])
    log = []
    info = lambda: "%r: %r, model %r" % (log, regions(ctx), model)
    for i in range(n):
        if v.pick(5) == 0 and i:
            old, om = ctx, list(model)
            ctx = t.ParseContext(context=ctx)
            v.prove(regions(ctx) == model and ctx.line_num == 3, "a copied context has the same regions", info)
            old.enter_region("COPY")
            v.prove(regions(ctx) == model, "a copy is independent", info)
        ty = v.choice("t%d" % i, ["MODULE", "SUBROUTINE", "TYPE"])
        nm = v.choice("m%d" % i, [None, "a", "b"])
        op = v.choice("o%d" % i, ["enter", "enter1", "leave"])
        log.append((op, ty, nm))
        if op == "leave":
            good = bool(model) and model[-1][0] == ty and (
                nm is None or (model[-1][1] == nm))
            out = v.call(ctx.leave_region, ty, region_name=nm, catch=errors(v))
            v.prove(out.ok == good, "a region can be left iff it is the innermost one", info)
            if not good:
                v.prove("f.F90:4" in str(out.exc), "the error names the place", info)
                return
            model.pop()
        else:
            bad = op == "enter1" and any(r[0] == ty for r in model)
            out = v.call(ctx.enter_region, ty, region_name=nm, nested_ok=op == "enter", catch=errors(v))
            v.prove(out.ok == (not bad), "an illegal nesting is an error", info)
            if bad:
                return
            model.append([ty, nm])
        v.prove(regions(ctx) == model, "the open regions, innermost last", info)
        v.prove([x for x in ctx.regions] == [r[0] for r in model], "the open region types", info)
        cur = ctx.curr_region()
        v.prove((list(cur) if cur else None) == (model[-1] if model else None), "the innermost region", info)
        want = " ==> ".join(r[0] + (" " + r[1] if r[1] is not None else "") for r in model)
        out = v.call(ctx.region_str)
        v.prove(out.ok and out.value == want, "the regions are described, outermost first",
                lambda: "%r: %r" % (model, out))


ERRS = "_ParseObject__num_errors"
MSG = "_ParseObject__error_message"


@contract([PO + "add_syntax_err", PO + "error_message"], conc=0,
          note="any number of earlier errors below the limit of 32")
def error_log_step(v):
    """one more error after any number of others"""
    m = v.repo("parse_tools.parse_object").ParseObject
    po = m("f.F90", ["a", "b"])
    k = v.int("errors", 1, 31)
    old = v.str("message", nonempty=True)
    get(po, ERRS)
    get(po, MSG)
    setattr(po, ERRS, k)
    setattr(po, MSG, old)
    i = v.int("line", 0)
    po.line_num = i
    kind, tok = v.str("kind"), v.str("token")
    has, skip = v.bool("has"), v.bool("skip")
    po.add_syntax_err(kind, token=tok if has else None, skip_context=skip)
    ctx = "" if skip else v.fmt(", at f.F90:{}", i + 1)
    want = v.fmt("Invalid {}, '{}'{}", kind, tok, ctx) if has else kind + ctx
    v.prove(v.eq(po.error_message, old + "\n" + want), "every error is reported, after the earlier ones")
    v.prove(v.eq(get(po, ERRS), k + 1), "errors are counted")
    v.prove(v.eq(po.line_num, i), "reporting an error does not move")


@contract([PO + "add_syntax_err"], sym=False, conc=300, note="bounded: up to 33 errors")
def error_log(v):
    m = v.repo("parse_tools.parse_object").ParseObject
    lines = ["l%d" % i for i in range(40)]
    po = m("f.F90", lines)
    n = v.choice("n", [1, 2, 5, 31, 32])
    want = []
    for i in range(n):
        po.line_num = i
        k = v.choice("k%d" % (i % 3), ["tok", "none", "skip"])
        if k == "tok":
            po.add_syntax_err("kind", token="t%d" % i)
            want.append("Invalid kind, 't%d', at f.F90:%d" % (i, i + 1))
        elif k == "none":
            po.add_syntax_err("bad thing %d" % i)
            want.append("bad thing %d, at f.F90:%d" % (i, i + 1))
        else:
            po.add_syntax_err("bad thing %d" % i, skip_context=True)
            want.append("bad thing %d" % i)
        v.prove(po.error_message == "\n".join(want), "every error is reported, in order",
                lambda: "%r, want %r" % (po.error_message, want))
        v.prove(po.line_num == i, "reporting an error does not move")
    if n == 32:
        po.add_syntax_err("one more")
        v.prove(po.error_message.startswith("\n".join(want) + "\n") and
                "Maximum number of errors" in po.error_message[len("\n".join(want)):],
                "exceeding the limit is reported", lambda: repr(po.error_message))
        v.prove(po.next_line()[0] is None, "parsing stops when the limit is exceeded")
