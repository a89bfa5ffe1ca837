"""C05: entry-point names map to exactly one lifecycle phase."""
from pyvc.harness import contract

# Specification: documented phase suffixes, required state, resulting state
PHASES = {
    "register": (["register"], "uninitialized", "uninitialized"),
    "initialize": (["init", "initial", "initialize"], "uninitialized", "initialized"),
    "timestep_initial": (["timestep_init", "timestep_initial", "timestep_initialize"],
                         "initialized", "in_time_step"),
    "run": (["run"], "in_time_step", "in_time_step"),
    "timestep_final": (["timestep_final", "timestep_finalize"], "in_time_step", "initialized"),
    "finalize": (["final", "finalize"], "initialized", "uninitialized"),
}
SUFFIXES = {s: ph for ph, (ss, _, _) in PHASES.items() for s in ss}
# longest suffix wins: foo_timestep_init is scheme foo, not scheme foo_timestep
ORDER = sorted(SUFFIXES, key=len, reverse=True)
IDRE = "[A-Za-z][A-Za-z0-9_]*"
LINE = "".join(chr(c) for c in range(32, 127)) + "\t"

POOL_STEM = ["a", "foo", "Foo_bar", "x_init", "run", "my_timestep", "a_run_init", "f1", "z_",
             "1a", "", "_b", "a b", "timestep", "foo_run_timestep"]
POOL_TAIL = [""] + ORDER + ["Init", "RUN", "Timestep_Initialize", "inits", "initi", "finalise",
                            "finali", "timestep", "timestep_run", "running", "initialized"]
NAMES = [a + b + c for a in POOL_STEM for b in ("_", "", "__", " _")
         for c in POOL_TAIL] + ["foo_run ", " foo_run", "foo_run1", "foo-run", "9_run", "foo.run"]


def ci(word):
    return "".join("[%s%s]" % (c, c.upper()) if c.isalpha() else c for c in word)


def spec_regex(suffixes):
    return IDRE + "_(?:" + "|".join(ci(s) for s in suffixes) + ")"


@contract(["state_machine.StateMachine.function_match", "ccpp_state_machine.CCPP_STATE_MACH"],
          conc=4000)
def entry_points_recognised_exactly(v):
    """function_match(name) != None  <=>  name in ID '_' suffix, for every string"""
    sm = v.repo("ccpp_state_machine").CCPP_STATE_MACH
    s = v.str("name", charset=LINE, pool=NAMES)
    func, suffix, phase = sm.function_match(s)
    legal = v.matches(s, spec_regex(ORDER))
    v.prove(v.Iff(phase is not None, legal), "recognised iff scheme name, underscore and suffix",
            lambda: "%r -> %r" % (s, (func, suffix, phase)))
    if phase is None:
        v.prove(func is None and suffix is None, "nothing returned for a name not recognised")
        return
    v.prove(v.eq(func + "_" + suffix, s), "scheme and suffix make up the name",
            lambda: "%r -> %r" % (s, (func, suffix, phase)))
    v.prove(v.matches(func, IDRE), "scheme name is an identifier")
    # the phase is that of the longest documented suffix the name ends in
    v.prove(phase in PHASES, "phase is a documented phase")
    for ph, (ss, _, _) in PHASES.items():
        own = v.matches(s, spec_regex(ss))
        longer = [x for x in ORDER if SUFFIXES[x] != ph and
                  any(len(x) > len(y) and x.endswith("_" + y) for y in ss)]
        if longer:
            own = v.And(own, v.Not(v.matches(s, spec_regex(longer))))
        v.prove(v.Iff(phase == ph, own), "phase %s exactly for its suffixes" % ph,
                lambda: "%r -> %r" % (s, (func, suffix, phase)))
    v.prove(v.matches(suffix, "|".join(ci(x) for x in PHASES[phase][0])),
            "suffix belongs to the phase")


@contract(["state_machine.StateMachine.transition_match"], conc=3000)
def phase_names_recognised_exactly(v):
    sm = v.repo("ccpp_state_machine").CCPP_STATE_MACH
    s = v.str("name", charset=LINE, pool=POOL_TAIL + [a + b for a in ("", "x_", " ") for b in POOL_TAIL]
              + [b + c for b in POOL_TAIL for c in (" ", "_", "x")])
    phase = sm.transition_match(s)
    for ph, (ss, _, _) in PHASES.items():
        v.prove(v.Iff(phase == ph, v.matches(s, "|".join(ci(x) for x in ss))),
                "bare name is phase %s exactly for its names" % ph, lambda: "%r -> %r" % (s, phase))
    v.prove(phase is None or phase in PHASES, "result is a phase or nothing")


@contract(["state_machine.StateMachine.function_match", "state_machine.StateMachine.transition_match"],
          conc=4000, cases=sorted(PHASES))
def single_phase_recognised_exactly(v, ph):
    """the same, asked about one phase only"""
    sm = v.repo("ccpp_state_machine").CCPP_STATE_MACH
    s = v.str("name", charset=LINE, pool=NAMES)
    func, suffix, phase = sm.function_match(s, transition=ph)
    v.prove(v.Iff(phase is not None, v.matches(s, spec_regex(PHASES[ph][0]))),
            "recognised iff the name has a suffix of the phase", lambda: "%r -> %r" % (s, phase))
    if phase is not None:
        v.prove(phase == ph, "the phase asked for")
        v.prove(v.eq(func + "_" + suffix, s), "scheme and suffix make up the name")
    t = v.str("bare", charset=LINE, pool=POOL_TAIL)
    v.prove(v.Iff(sm.transition_match(t, transition=ph) == ph,
                  v.matches(t, "|".join(ci(x) for x in PHASES[ph][0]))),
            "bare phase name recognised iff it is one of the phase's names")


@contract(["state_machine.StateMachine.initial_state", "state_machine.StateMachine.final_state",
           "state_machine.StateMachine.transitions"], conc=50)
def states_of_phases(v):
    sm = v.repo("ccpp_state_machine").CCPP_STATE_MACH
    v.prove(sorted(sm.transitions()) == sorted(PHASES), "exactly the documented phases")
    ph = v.choice("phase", sorted(PHASES))
    v.prove(v.eq(sm.initial_state(ph), PHASES[ph][1]), "required state of the phase")
    v.prove(v.eq(sm.final_state(ph), PHASES[ph][2]), "resulting state of the phase")
    v.prove(v.repo("ccpp_state_machine").RUN_PHASE_NAME == "run", "name of the run phase")


@contract(["state_machine.StateMachine.__init__", "state_machine.StateMachine.add_transition",
           "state_machine.StateMachine.__setitem__"], conc=1500)
def general_machine(v):
    """any table of up to three transitions with symbolic names and states"""
    mod = v.repo("state_machine")
    n = v.choice("n", [1, 2, 3])
    rows = []
    for i in range(n):
        rows.append((v.name("t%d" % i, pool=["ab", "cd", "ef", "AB"]),
                     v.str("s%d" % i, pool=["a", "b", "c", ""]),
                     v.str("f%d" % i, pool=["a", "b", "c", ""]),
                     v.choice("r%d" % i, ["aa", "bbb", "c"])))
    dup = v.Or(*([False] + [v.eq(rows[i][0], rows[j][0]) for i in range(n) for j in range(i)]))
    out = v.call(mod.StateMachine, rows, catch=(ValueError,))
    v.prove(v.Iff(out.ok, v.Not(dup)), "a repeated transition name is an error, else accepted")
    if out.ok:
        for t, s, f, _ in rows:
            v.prove(v.eq(out.value.initial_state(t), s), "initial state as given")
            v.prove(v.eq(out.value.final_state(t), f), "final state as given")
        v.prove(len(out.value.transitions()) == n, "every transition kept")
