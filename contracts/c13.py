"""C13: output directories end up with exactly the newly generated files."""
from pyvc.harness import contract
from contracts import fs as FS

# (source directory, destination directory): side by side, and the staging area inside the
# destination as capgen makes it
PLACES = [("stage", "out"), ("out/ccpp_temp_scratch_dir", "out")]
NAMES = ["ccpp_a_cap.F90", "b.F90", "sub/c.F90", "host_ccpp_cap.F90"]
OLD, NEW = ["aaaa", "bbbb", "cccc"], ["aaaa", "bbbb", "dddd"]


def setup(v, n, place):
    fs = FS.make(v)
    src, dst = place
    for d in (src, dst, "elsewhere"):
        fs.mkdir(d)
    new, old = {}, {}
    for x in NAMES[:n]:
        if "/" in x:
            fs.mkdir(src + "/sub")
            fs.mkdir(dst + "/sub")
        new[x] = v.str("new_" + x, pool=NEW)
        stamp = v.int("stamp_" + x, 1000, 1001)
        fs.write(src + "/" + x, new[x], stamp)
        if v.choice("exists_" + x, [True, False]):
            old[x] = v.str("old_" + x, pool=OLD)
            fs.write(dst + "/" + x, old[x], v.int("oldstamp_" + x, 1000, 1001))
            if v.symbolic:
                v.assume(v.len(old[x]) == v.len(new[x]))
    others = {}
    for x in ("other.F90", "sub/ccpp_a_cap.F90", "ccpp_datatable.xml"):
        if x == "sub/ccpp_a_cap.F90":
            fs.mkdir(dst + "/sub")
        others[dst + "/" + x] = v.str("other_" + x, pool=OLD)
    others["elsewhere/ccpp_a_cap.F90"] = v.str("far", pool=OLD)
    for x, c in others.items():
        fs.write(x, c, 1000)
    snap = {x: fs.snapshot(dst + "/" + x) for x in old}
    osnap = {x: fs.snapshot(x) for x in others}
    return fs, new, old, others, snap, osnap


def run(v, case, overwrite, remove):
    n, place = case
    fs, new, old, others, snap, osnap = setup(v, n, place)
    src, dst = place
    try:
        fu = v.repo("file_utils")
        kw = {}
        if overwrite is not None:
            kw["overwrite"] = overwrite
        if remove is not None:
            kw["remove_src"] = remove
        out = v.call(fu.move_modified_files, fs.path(src), fs.path(dst), **kw)
        v.prove(out.ok, "the files are installed without an error", lambda: repr(out.exc))
        for x in new:
            p = dst + "/" + x
            ok = fs.isfile(p)
            v.prove(ok, "every generated file exists in the destination", lambda: x)
            if ok:
                v.prove(v.eq(fs.read(p), new[x]),
                        "installed file has exactly the newly generated contents",
                        lambda: "%s: %r" % (x, fs.read(p)))
            if x in old and not overwrite:
                v.prove(v.Implies(v.eq(old[x], new[x]), fs.untouched(p, snap[x])),
                        "a file that did not change is left untouched", lambda: x)
            if x in old and overwrite:
                v.prove(not fs.untouched(p, snap[x]), "a file is replaced when overwriting is forced")
        for x, c in others.items():
            v.prove(fs.untouched(x, osnap[x]) and v.eq(fs.read(x), c),
                    "no other file is altered", lambda: x)
        v.prove(fs.isdir(dst), "the destination directory is still there")
        if remove:
            v.prove(not fs.isdir(src) or not fs.files(src),
                    "the temporary area is emptied when removal is requested",
                    lambda: fs.files(src))
        left = [x for x in fs.files(dst) if not x.startswith(src + "/") and x not in others and
                x[len(dst) + 1:] not in new]
        v.prove(not left, "nothing but the generated files is added", lambda: left)
    finally:
        fs.close()


CASES = [(n, p) for p in PLACES for n in (0, 1, 2, 3)]


@contract(["file_utils.move_modified_files", "file_utils.remove_dir"], cases=CASES, conc=150,
          note="os.*, os.path.*, os.walk, filecmp.cmp and shutil.* by assumed contracts on a ghost "
               "file system (contracts/fs.py); up to 3 generated files, all contents")
def generated_files_installed(v, case):
    run(v, case, v.choice("overwrite", [None, False, True]), v.choice("remove", [None, False, True]))


@contract(["file_utils.move_modified_files"], conc=40)
def same_directory_is_left_alone(v):
    fs = FS.make(v)
    try:
        fs.mkdir("out")
        c = v.str("contents", pool=OLD)
        fs.write("out/a.F90", c)
        s = fs.snapshot("out/a.F90")
        how = v.choice("how", ["%s", "%s/", "%s/.", "%s/../out"])
        ow, rm = v.choice("overwrite", [False, True]), v.choice("remove", [False, True])
        out = v.call(v.repo("file_utils").move_modified_files, fs.path("out"), how % fs.path("out"),
                     overwrite=ow, remove_src=rm)
        v.prove(out.ok, "no error")
        v.prove(fs.untouched("out/a.F90", s), "generating straight into the destination keeps the files")
    finally:
        fs.close()


@contract(["file_utils.move_modified_files"], conc=60)
def two_generated_files_of_one_name(v):
    """reported, and nothing installed over the first"""
    fs = FS.make(v)
    try:
        for d in ("st/a", "st/b", "out/a", "out/b"):
            fs.mkdir(d)
        fs.write("st/a/x.F90", v.str("c1", pool=OLD))
        fs.write("st/b/x.F90", v.str("c2", pool=OLD))
        fs.write("out/a/x.F90", v.str("c3", pool=OLD))
        s = fs.snapshot("out/a/x.F90")
        cce = v.repo("parse_tools").CCPPError
        out = v.call(v.repo("file_utils").move_modified_files, fs.path("st"), fs.path("out"),
                     overwrite=v.choice("o", [False, True]), remove_src=v.choice("r", [False, True]))
        v.prove(not out.ok and isinstance(out.exc, cce), "two files of one name are an error")
        v.prove(fs.untouched("out/a/x.F90", s) and not fs.isfile("out/b/x.F90"), "nothing is installed")
    finally:
        fs.close()


@contract(["file_utils.remove_dir"], conc=200)
def temporary_area_removed(v):
    fs = FS.make(v)
    try:
        fs.mkdir("keep")
        fs.write("keep/k", v.str("k", pool=OLD))
        fs.mkdir("tmp")
        inner = v.choice("dirs", [[], ["tmp/a"], ["tmp/a/b", "tmp/c"]])
        files = v.choice("files", [[], ["tmp/f"], ["tmp/f", "deepest/g"]])
        for d in inner:
            fs.mkdir(d)
        for f in files:
            f = f.replace("deepest", inner[0] if inner else "tmp")
            fs.write(f, v.str("c", pool=OLD))
        force = v.choice("force", [False, True])
        fu = v.repo("file_utils")
        import os
        cwd = fs.cwd if v.symbolic else os.getcwd()
        out = v.call(fu.remove_dir, fs.path("tmp"), force=force)
        v.prove(out.ok, "no error", lambda: repr(out.exc))
        v.prove((fs.cwd if v.symbolic else os.getcwd()) == cwd, "the working directory is unchanged")
        if force:
            v.prove(not fs.isdir("tmp") and not fs.files("tmp"), "a forced removal leaves nothing")
        else:
            v.prove(len(fs.files("tmp")) == len(files), "an unforced removal removes no file")
            if not inner:
                v.prove(fs.isdir("tmp") == bool(files), "an empty directory is removed")
        v.prove(fs.isfile("keep/k"), "nothing else is removed")
    finally:
        fs.close()
