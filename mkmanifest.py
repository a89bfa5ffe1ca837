"""Regenerates MANIFEST.json from the table below (run by hand: python3 mkmanifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("deductive verification of contracts on the Python source: obligations generated by "
        "symbolic execution of the instrumented real functions with loop invariants, discharged "
        "by z3/cvc5; failing models replayed on the plain code")
NA = {
    "C24": "would need deductive verification of the whole generator (some 10 kLoC of Python over "
           "XML and file trees) together with Fortran semantics; no deductive verifier for either "
           "is available. Its parts are C15, C16, C18, C22 and C23",
    "C25": "the registry is Fortran run-time code; no deductive verifier for Fortran is installed "
           "(gfortran only compiles), so no contract can be discharged on it",
}
# id -> (level, note)
CLAIMS = {
    "C01": ("proof", "Every conversion expression for all real values and all kind names; floating "
            "point is treated as real arithmetic; trusts z3/cvc5 and the engine."),
    "C02": ("proof", "Compatibility decision for all names, kinds and units (symbolic strings) and "
            "dimension lists up to 3; trusts z3/cvc5 and the engine's string model."),
    "C03": ("proof", "Transforms for ranks 1-3, every permutation and flip, all index and extent "
            "values; trusts z3/cvc5 and the expression reader in contracts/fexpr.py."),
    "C04": ("proof", "Attribute checkers for all texts within the shapes each contract states (units, "
            "identifiers, references, types, literals, dimensions); nested parentheses, character "
            "literals beyond 3 characters and whole variables are bounded (labelled)."),
    "C05": ("proof", "Every obligation over every ASCII line: phase recognised iff scheme name, "
            "underscore and documented suffix; trusts z3/cvc5 and the engine's model of re."),
    "C08": ("proof", "Conditions with symbolic names and values on fixed expression shapes and region "
            "chains of up to 6 directives are discharged; wider expressions are bounded (labelled); "
            "trusts z3/cvc5."),
    "C09": ("proof", "Dictionary operations for all names on dictionaries of up to 3 entries and an "
            "enclosing scope; longer histories are bounded (labelled); trusts z3/cvc5."),
    "C10": ("proof", "Every prefix and up to two names in use, and every name of up to 5 characters for "
            "each length limit up to 7; longer histories are bounded (labelled); trusts z3/cvc5 and the "
            "engine's string model."),
    "C13": ("proof", "Every file name and contents for up to 3 files per directory; os, shutil and "
            "filecmp are assumed contracts, replayed on real directories."),
    "C17": ("proof", "Lists of up to 3 dimensions with symbolic names and bounds, every phase kind; "
            "at most one horizontal and one vertical dimension per list (precondition); trusts z3/cvc5."),
    "C18": ("proof", "Conditions of fixed token shapes with symbolic names, literals and tables; longer "
            "conditions are bounded (labelled); trusts z3/cvc5 and the engine's model of re."),
    "C20": ("proof", "Containers, references, indices and bounds for symbolic names within the shapes each "
            "contract states; deeper nesting and the name conversion are bounded (labelled)."),
    "C21": ("proof", "Every position, line list and region stack (symbolic), one step at a time by "
            "the class invariant; trusts z3/cvc5 and the engine."),
    "C06": ("proof", "Lines of the fixed shapes each contract states with arbitrary printable characters at "
            "the symbolic places, for all line lengths within the stated ranges; longer lines are bounded "
            "(labelled); trusts z3/cvc5 and the engine."),
    "C07": ("proof", "Source texts of the fixed shapes each contract states with arbitrary printable "
            "characters at the symbolic places; longer programs are bounded (labelled); preprocessor "
            "lines are outside the contracts."),
    "C11": ("proof", "Every name, property value, dimension and optional flag in tables of up to 3 variables "
            "(lists longer than the stated sizes are not covered); whole metadata and Fortran files are bounded "
            "(labelled); Var and MetadataSection by assumed contracts."),
    "C12": ("proof", "Line kinds, properties, logical lines, names and types for every text within the shapes "
            "each contract states (up to 3 words or properties per line, 4 physical lines); whole files, extra "
            "lines and single defects are bounded (labelled)."),
    "C19": ("proof", "Every query for all names, texts and intents in tables of the sizes each contract states (up "
            "to 3 entries per section, chains of 3 dictionaries); xml.etree by an assumed contract; whole table "
            "files, pretty printing of trees and writing are bounded (labelled)."),
    "C15": ("proof", "Guard and state update of every phase in every state, on the code generated for one suite and "
            "run by the interpreter in contracts/fgen.py (trusted); whole lifecycles of generated suites are bounded "
            "(labelled): every sequence of phases there is of random length and order."),
    "C16": ("exploration", "The argument list written for a call (CallList.call_string) is proved for all names; the "
            "rest is bounded contracts (labelled) on whole runs of capgen: models up to the sizes each contract "
            "states; the generated code is run by the interpreter in contracts/fgen.py (trusted) with a host and "
            "schemes that check every call."),
    "C22": ("proof", "Every combination of type, attributes, context and rank up to three; names of five and seven "
            "(pointers: 1, 5, 24 and 63) symbolic characters; array-reference names by four shapes."),
    "C23": ("proof", "Component paths for every nesting depth up to five and every equality pattern of standard names; "
            "the containers are scalars."),
    "C14": ("proof", "Named files and list-file reading for all names over an assumed file system; "
            "nested list resolution is bounded (labelled)."),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMS:
            level, note = CLAIMS[i]
            checks.append({
                "property": i,
                "quick_cmd": "python3-vt -m pyvc check %s" % i,
                "thorough_cmd": "env VERIF_TIER=thorough python3-vt -m pyvc check %s" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH, "level": level, "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(
                i, "contracts for this property are not built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\"",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: instrumentation is applied in memory at import."},
                  f, indent=1)
        f.write("\n")


main()
