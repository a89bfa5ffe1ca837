"""C15: generated suites enforce their lifecycle order."""
from pyvc.harness import contract, Stand
from contracts import e2e, fgen, world

PHASES = ["register", "initialize", "timestep_initial", "run", "timestep_final", "finalize"]
META = {"register": "register", "initialize": "init", "timestep_initial": "timestep_init", "run": "run",
        "timestep_final": "timestep_final", "finalize": "finalize"}


def model(v, nschemes, ngroups, nsuites):
    """schemes with some of the phases each, in groups of suites"""
    m = e2e.Model()
    m.hostvars.append(e2e.Arg("q", "specific_thing", ["horizontal_dimension"], units="m"))
    names = ["alpha", "beta", "gamma"][:nschemes]
    for s in names:
        m.schemes[s] = {}
        for ph in PHASES:
            if ph == "run" or v.choice("%s %s" % (s, ph), [True, False]):
                args = list(e2e.ERRORS)
                if ph == "run" and v.choice("arg", [True, False]):
                    args.insert(0, e2e.Arg("x", "specific_thing", ["horizontal_loop_extent"], units="m",
                                           intent="inout"))
                m.schemes[s][META[ph]] = args
    for k in range(nsuites):
        groups = []
        for g in range(ngroups):
            items = []
            for _ in range(v.choice("items", [1, 2, 3])):
                items.append(v.choice("scheme", names))
            groups.append(("grp%d" % g, items))
        m.suites.append(("suite_%s" % "ab"[k], groups))
    return m


def state(w, suite):
    return str(w.m.globals["ccpp_%s_cap" % suite]["ccpp_suite_state"].arr.data[()]).strip()


@contract(["ccpp_suite.Suite.check_suite_state", "ccpp_suite.Suite.set_suite_state", "ccpp_suite.Suite.write",
           "suite_objects.Group.write", "suite_objects.Group.analyze", "suite_objects.Scheme.write",
           "suite_objects.Subcycle.write", "host_cap.write_host_cap", "code_block.CodeBlock.write",
           "ccpp_capgen.capgen"], sym=False, conc=4000, budget=60,
          note="bounded: suites of up to two groups and three schemes with any of the phases, and sequences of up to "
               "14 phase calls in any order, in which schemes may fail; the generated Fortran is interpreted")
def lifecycle(v):
    """whatever the order of calls: out of order nothing happens, in order every scheme is called and the state moves"""
    m = model(v, v.choice("n", [1, 2, 3]), v.choice("g", [1, 2]), v.choice("s", [1, 1, 2]))
    r = e2e.run(v, m)
    v.prove(r.ok, "a legal model is accepted", lambda: repr(r.exc))
    try:
        w = world.World(m, r, v.pick)
        order = ["register", "initialize", "timestep_initial", "run", "run", "timestep_final"]
        for k in range(v.choice("calls", [3, 6, 10, 14])):
            suite, groups = v.choice("suite", m.suites)
            legal = [p for p in order + ["finalize"] if world.STATES[p][0] == w.state[suite]]
            ph = v.choice("phase", PHASES + legal * 3)
            if v.choice("fail", [False] * 5 + [True]):
                w.fail_at = w.count + v.choice("at", [0, 1])
            w.enter(suite, ph, v.choice("part", [g for g, _ in groups]), v.choice("cols", [(1, 5), (2, 3), (4, 4)]))
            w.fail_at = None
            v.prove(state(w, suite) == w.state[suite], "the state is the one the phase leads to",
                    lambda: "%s after %s: %s, expected %s" % (suite, ph, state(w, suite), w.state[suite]))
    except (world.Broken, fgen.FortranError) as exc:
        v.prove(False, "each phase call does what its place in the lifecycle allows",
                "%s: %s\n%s" % (type(exc).__name__, exc, [(s, g) for s, g in m.suites]))


class Out(Stand):
    """assumed contract of the output file: write(text, indent) appends a line"""
    def __init__(self):
        self.lines = []

    def write(self, text, indent):
        self.lines.append("   " * indent + text)

    def comment(self, text, indent):
        self.lines.append("! " + text)


@contract(["ccpp_suite.Suite.check_suite_state", "ccpp_suite.Suite.set_suite_state", "code_block.CodeBlock.write",
           "state_machine.StateMachine.initial_state", "state_machine.StateMachine.final_state"], conc=300,
          note="exhaustive: every phase from every state")
def guard_and_update(v):
    """the guard returns an error unless the suite is in the phase's state; the update sets the next state"""
    suite = v.repo("ccpp_suite").Suite
    ph = v.choice("phase", PHASES)
    now = v.choice("state", ["uninitialized", "initialized", "in_time_step", ""])
    err = v.choice("names", [("errflg", "errmsg", "suite_x"), ("ierr", "msg", "s_grp")])
    guard, update = Out(), Out()
    a = v.call(lambda: suite.check_suite_state(ph).write(guard, 1, {"errcode": err[0], "errmsg": err[1],
                                                                    "funcname": err[2]}))
    b = v.call(lambda: suite.set_suite_state(ph).write(update, 1, {}))
    v.prove(a.ok and b.ok, "code for every phase", lambda: "%r %r" % (a, b))
    text = "\n".join(["module x", "character(len=16) :: ccpp_suite_state = '%s'" % now, "contains",
                      "subroutine guard(%s, %s, passed)" % err[:2], "integer, intent(out) :: " + err[0],
                      "character(len=512), intent(out) :: " + err[1], "integer, intent(out) :: passed",
                      err[0] + " = 0", err[1] + " = ''", "passed = 0"] + guard.lines + [
                          "passed = 1", "end subroutine", "subroutine update()"] + update.lines + [
                              "end subroutine", "end module"])
    try:
        import numpy as np
        m = fgen.Machine([text], lambda mod, name: None, {}, None)
        e, msg, p = (fgen.Arr(np.array(x, dtype=t)) for x, t in ((5, None), ("old", object), (9, None)))
        m.call("x", "guard", **{err[0]: fgen.Slot(e), err[1]: fgen.Slot(msg), "passed": fgen.Slot(p)})
        right = world.STATES[ph][0] == now
        v.prove((int(p.data) == 1) == right, "passes iff the state is the one the phase requires",
                lambda: "%s in %r: %r" % (ph, now, guard.lines))
        v.prove((int(e.data) == 0) == right, "an error iff it does not pass", lambda: repr(guard.lines))
        v.prove((msg.data[()] != "") == (not right), "an error has a message", lambda: repr(guard.lines))
        v.prove(str(m.globals["x"]["ccpp_suite_state"].arr.data[()]) == now, "the guard leaves the state")
        m.call("x", "update")
        v.prove(world.STATES[ph][0] != now or
                str(m.globals["x"]["ccpp_suite_state"].arr.data[()]).strip() == world.STATES[ph][1],
                "the state the phase leads to", lambda: repr(update.lines))
    except fgen.FortranError as exc:
        v.prove(False, "the guard is Fortran", "%s\n%s" % (exc, text))
