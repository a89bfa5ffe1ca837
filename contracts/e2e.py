"""Whole runs of capgen on small generated models, for bounded contracts (labelled).

A model is written as metadata, Fortran and suite files in a scratch directory that is
removed afterwards; capgen runs in this process and the generated files are read back.
"""
import contextlib
import io
import logging
import os
import shutil
import tempfile

LOG = logging.getLogger("pyvc_e2e")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL)
PHASES = ["register", "init", "timestep_init", "run", "timestep_final", "final"]


class Arg:
    """a variable as its metadata states it"""
    def __init__(self, local, std, dims=(), type="real", kind=None, units="m", intent=None, optional=False,
                 **extra):
        if kind is None and type == "real":
            kind = "kind_phys"
        self.local, self.std, self.dims, self.type, self.kind = local, std, list(dims), type, kind
        self.units, self.intent, self.optional, self.extra = units, intent, optional, extra

    def but(self, **k):
        a = Arg(self.local, self.std, self.dims, self.type, self.kind, self.units, self.intent, self.optional,
                **self.extra)
        for x, y in k.items():
            if hasattr(a, x):
                setattr(a, x, y)
            else:
                a.extra[x] = y
        return a

    def meta(self):
        out = ["[ %s ]" % self.local, "  standard_name = " + self.std, "  units = " + self.units,
               "  type = " + self.type, "  dimensions = (%s)" % ", ".join(self.dims)]
        if self.kind:
            out.append("  kind = " + self.kind)
        if self.intent:
            out.append("  intent = " + self.intent)
        if self.optional:
            out.append("  optional = True")
        for k in sorted(self.extra):
            out.append("  %s = %s" % (k, self.extra[k]))
        return "\n".join(out)

    def decl(self, dummy=False):
        t = self.type
        if t not in ("real", "integer", "logical", "character", "complex"):
            t = "type(%s)" % t
        elif self.kind:
            t += "(%s)" % self.kind if t == "character" else "(kind=%s)" % self.kind if 1 else ""
        if dummy:
            t += ", intent(%s)" % self.intent
            if self.optional:
                t += ", optional"
        elif self.dims and "active" not in self.extra and self.extra.get("decl_alloc", True):
            pass
        shape = "(%s)" % ",".join(":" for _ in self.dims) if self.dims else ""
        if "(" in self.local:
            return "! " + self.local
        if shape and not dummy:
            t += ", allocatable"
        if dummy and self.extra.get("allocatable"):
            t += ", allocatable"
        return "%s :: %s%s" % (t, self.local, shape)


ERRORS = [Arg("errmsg", "ccpp_error_message", (), "character", "len=512", "none", "out"),
          Arg("errflg", "ccpp_error_code", (), "integer", None, "1", "out")]
COLS = [Arg("col_start", "horizontal_loop_begin", (), "integer", None, "count", protected="True"),
        Arg("col_end", "horizontal_loop_end", (), "integer", None, "count", protected="True")]
SIZES = [Arg("ncols", "horizontal_dimension", (), "integer", None, "count", protected="True"),
         Arg("pver", "vertical_layer_dimension", (), "integer", None, "count", protected="True")]


def table(name, kind, sections):
    """sections: (name, type, args)"""
    out = ["[ccpp-table-properties]", "  name = " + name, "  type = " + kind]
    for n, t, args in sections:
        out += ["[ccpp-arg-table]", "  name = " + n, "  type = " + t] + [a.meta() for a in args]
    return "\n".join(out) + "\n"


class Model:
    """host module variables, host arguments, derived types, schemes and suites"""
    def __init__(self):
        self.hostvars, self.ddts, self.schemes, self.suites = list(SIZES), [], {}, []
        self.hostargs = list(COLS) + [a.but(intent=None) for a in ERRORS]
        self.hostname = "host_model"
        self.kinds = ["kind_phys=REAL64"]

    def write(self, d):
        def put(name, text):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        meta = fort = ""
        for n, fields in self.ddts:
            meta += table(n, "ddt", [(n, "ddt", fields)])
        put("host_mod.meta", meta + table("host_mod", "module", [("host_mod", "module", self.hostvars)]))
        fort = ["module host_mod", "  use ccpp_kinds, only: kind_phys", "  implicit none", "  public"]
        for n, fields in self.ddts:
            fort += ["  !> \\section arg_table_%s" % n, "  !! \\htmlinclude %s.html" % n, "  type, public :: " + n]
            fort += ["    " + a.decl() for a in fields] + ["  end type " + n]
        fort += ["  !> \\section arg_table_host_mod", "  !! \\htmlinclude host_mod.html"]
        fort += ["  " + (a.decl()) for a in self.hostvars]
        put("host_mod.F90", "\n".join(fort + ["end module host_mod"]) + "\n")
        put("host_model.meta", table(self.hostname, "host", [(self.hostname, "host", self.hostargs)]))
        put("host_model.F90", "\n".join(
            ["module host_driver", "contains", "  !> \\section arg_table_%s" % self.hostname,
             "  !! \\htmlinclude x.html", "  subroutine %s(%s)" % (self.hostname, ", ".join(
                 a.local for a in self.hostargs))]
            + ["    " + a.but(intent="inout").decl(True) for a in self.hostargs]
            + ["  end subroutine", "end module host_driver"]) + "\n")
        for s, phases in self.schemes.items():
            put(s + ".meta", table(s, "scheme", [(s + "_" + p, "scheme", args) for p, args in phases.items()]))
            out = ["module " + s, "  use ccpp_kinds, only: kind_phys", "  implicit none", "contains"]
            for p, args in phases.items():
                out += ["  !> \\section arg_table_%s_%s" % (s, p), "  !! \\htmlinclude x.html",
                        "  subroutine %s_%s(%s)" % (s, p, ", ".join(a.local for a in args))]
                out += ["    " + a.decl(True) for a in args] + ["  end subroutine %s_%s" % (s, p)]
            put(s + ".F90", "\n".join(out + ["end module " + s]) + "\n")
        for name, groups in self.suites:
            put(name + ".xml", '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="%s" version="1.0">\n%s</suite>\n'
                % (name, "".join('  <group name="%s">\n%s  </group>\n' % (g, "".join(
                    "    <scheme>%s</scheme>\n" % x if isinstance(x, str) else
                    '    <subcycle loop="%s">\n%s    </subcycle>\n' % (x[0], "".join(
                        "      <scheme>%s</scheme>\n" % y for y in x[1])) for x in items)) for g, items in groups)))


class Result:
    def __init__(self, files, exc, db):
        self.files, self.exc, self.db = files, exc, db

    @property
    def ok(self):
        return self.exc is None


_CACHE = {}


def run(v, model, keep=None):
    """run capgen on the model; the generated files or the error"""
    cap = v.repo("ccpp_capgen")
    env = v.repo("framework_env")
    pt = v.repo("parse_tools")
    d = tempfile.mkdtemp(prefix="pyvc_e2e_")
    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    saved = {}

    def cached(name):
        f = getattr(cap, name)
        saved[name] = f

        def g(filename, *a, **k):
            if not os.path.basename(str(filename)).startswith("ccpp_constituent_prop_mod"):
                return f(filename, *a, **k)
            key = (name, id(f), str(filename))
            if key not in _CACHE:
                _CACHE[key] = f(filename, *a, **k)
            return _CACHE[key]
        setattr(cap, name, g)
    # the framework's own Fortran module is the same in every run
    cached("parse_fortran_file")
    try:
        model.write(d)
        out = os.path.join(d, "out")
        e = env.CCPPFrameworkEnv(LOG, ndict={
            "host_files": ",".join(os.path.join(d, x) for x in ("host_mod.meta", "host_model.meta")),
            "scheme_files": ",".join(os.path.join(d, s + ".meta") for s in model.schemes),
            "suites": ",".join(os.path.join(d, s + ".xml") for s, _ in model.suites),
            "host_name": model.hostname, "kind_type": model.kinds, "output_root": out,
            "use_error_obj": False, "verbose": 0, "force_overwrite": False, "preproc_directives": "",
            "debug": False, "generate_docfiles": False, "ccpp_datafile": "datatable.xml"})
        exc, db = None, None
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                db = cap.capgen(e, return_db=True)
        except Exception as x:     # pylint: disable=broad-except
            exc = x
        files = {}
        if os.path.isdir(out):
            for n in os.listdir(out):
                with open(os.path.join(out, n)) as f:
                    files[n] = f.read()
        return Result(files, exc, db)
    finally:
        logging.disable(lvl)
        for n, f in saved.items():
            setattr(cap, n, f)
        shutil.rmtree(d)
