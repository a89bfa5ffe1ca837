"""C14: input file lists resolve completely, in order and without duplicates."""
import fnmatch
import os
import glob
import builtins
import logging
from pyvc.harness import contract
from contracts import fs as FS

LOG = logging.getLogger("c14")
WANTED = ["work/a.meta", "work/b.meta", "work/sub/c.meta", "work/sub/a.meta", "lists/d.meta",
          "lists/sub/e.meta", "a.meta"]
OTHER = ["work/readme.md", "work/x.xml", "work/noext", "work/a.metax", "lists/meta"]
LISTS = ["work/one.txt", "lists/two.txt", "lists/sub/three.txt"]
# as written by a user; {R} is the absolute root
ENTRIES = ["a.meta", "b.meta", "./b.meta", "sub/c.meta", "sub/a.meta", "../a.meta", "{R}/lists/d.meta",
           "{R}/work/a.meta", "{R}/work/sub/../b.meta", "gone.meta", "{R}/lists/gone.meta",
           "one.txt", "../lists/two.txt", "{R}/lists/sub/three.txt", "gone.txt", "readme.md",
           "x.xml", "noext", "a.metax", "sub", "{R}/lists", "*.meta", "sub/*.meta", "z*.meta"]
LINES = {
    "work/one.txt": ["a.meta", "sub/c.meta", "../lists/two.txt", "one.txt", "# a.meta", "", "! c",
                     "  b.meta  ", "{R}/lists/d.meta", "gone.meta", "sub", "readme.md"],
    "lists/two.txt": ["d.meta", "sub/e.meta", "../work/b.meta", "sub/three.txt", "../work/one.txt",
                      "#x", "nothere.txt", "{R}/a.meta", "a.meta", "../work/*.meta"],
    "lists/sub/three.txt": ["e.meta", "../d.meta", "../../work/a.meta", "three.txt", "../two.txt",
                            "d.meta", "   "],
}


def good_lines(x):
    """lines that are no errors (so that longer histories succeed)"""
    return [y for y in LINES[x] if "gone" not in y and "nothere" not in y and
            (x, y) not in ((("lists/two.txt"), "a.meta"), ("lists/sub/three.txt", "d.meta"))]


def reference(fs, entries, base, lines, denied):
    """documented meaning of a list of names; (groups of files, are there errors)"""
    groups, seen_lists, errs = [], [], []
    files = set(WANTED + OTHER + LISTS)
    dirs = {"", "work", "work/sub", "lists", "lists/sub"}

    def rel(name, at):
        p = os.path.normpath(os.path.join(fs.path(at), name.replace("{R}", fs.path(""))))
        return os.path.relpath(p, fs.path("")) if p != fs.path("") else ""

    def visit(name, at):
        r = rel(name, at)
        if "*" in r:
            d, b = os.path.split(r)
            hit = [f for f in files if os.path.dirname(f) == d and fnmatch.fnmatch(
                os.path.basename(f), b)]
            errs.extend(f for f in hit if f in denied)
            groups.append(hit)
        elif r in dirs:
            hit = [f for f in files if os.path.dirname(f) == r and f.endswith(".meta")]
            errs.extend(f for f in hit if f in denied)
            groups.append(hit)
        elif r.endswith(".meta"):
            if r not in files or r in denied:
                errs.append(r)
            groups.append([r])
        elif r.endswith(".txt"):
            if r not in files or r in denied:
                errs.append(r)
            elif r not in seen_lists:
                seen_lists.append(r)
                for ln in lines[r]:
                    ln = ln.strip()
                    if ln and ln[0] not in "#!":
                        visit(ln, os.path.dirname(r))

    for e in entries:
        visit(e, base)
    return groups, errs


def body(v, mode):
    fs = FS.make(v)
    access = os.access
    cwd = os.getcwd()
    try:
        for d in ("work/sub", "lists/sub"):
            fs.mkdir(d)
        lines = {}
        for x in LISTS:
            pool = LINES[x] if mode == "any" else good_lines(x)
            k = v.choice("nlines_" + x, [0, 1, 2, 3] if mode != "flat" else [1])
            lines[x] = [v.choice("line_%s_%d" % (x, i), pool) for i in range(k)]
        for x in WANTED + OTHER:
            fs.write(x, x)
        for x in LISTS:
            fs.write(x, "".join(y.replace("{R}", fs.path("")) + "\n" for y in lines[x]))
        denied = set()
        if mode == "any" and v.choice("deny", [False, False, True]):
            denied = {v.choice("denied", ["work/b.meta", "lists/two.txt", "lists/sub/e.meta"])}
        ent = ENTRIES if mode == "any" else [e for e in ENTRIES if "gone" not in e]
        n = v.choice("n", [1, 2, 3, 4])
        entries = [v.choice("e%d" % i, ent) for i in range(n)]
        full = [e.replace("{R}", fs.path("")) for e in entries]
        how = v.choice("how", ["list", "string", "cwd"])
        arg = list(full)
        if how == "string":
            arg = v.choice("sep", [",", " , ", ",,"]).join(full)
        fu = v.repo("file_utils")
        if v.symbolic:
            fs.denied = {fs.path(x) for x in denied}
            fs.cwd = fs.path("work")
        else:
            bad = {fs.path(x) for x in denied}
            os.access = lambda p, m, **k: os.path.abspath(p) not in bad and access(p, m, **k)
            os.chdir(fs.path("work"))
        kw = {} if how == "cwd" else {"root_path": fs.path("work")}
        if how != "cwd" and not v.symbolic:
            os.chdir(fs.path("lists"))
        cce = v.repo("parse_tools").CCPPError
        out = v.call(fu.create_file_list, arg, ["meta"], "Host", LOG, catch=(cce,), **kw)
        groups, errs = reference(fs, entries, "work", lines, denied)
        info = lambda: "%r lists=%r denied=%r -> %r" % (entries, lines, denied, out)
        v.prove(out.ok == (not errs), "an error exactly when a named file is missing or unreadable",
                info)
        if out.ok:
            got = [os.path.relpath(x, fs.path("")) for x in out.value]
            v.prove(all(os.path.isabs(x) for x in out.value), "names are absolute", info)
            v.prove(len(set(got)) == len(got), "no file is listed twice", info)
            i = 0
            seen = set()
            for g in groups:
                new = set(g) - seen
                seen |= new
                v.prove(set(got[i:i + len(new)]) == new, "files come in first-mention order", info)
                i += len(new)
            v.prove(i == len(got), "nothing else is listed", info)
        else:
            for e in errs:
                v.prove(os.path.basename(e) in str(out.exc), "the error names the file", info)
    finally:
        os.access = access
        os.chdir(cwd)
        fs.close()


@contract(["file_utils.create_file_list", "file_utils._create_file_list_int",
           "file_utils.add_unique_files", "file_utils.read_pathnames_from_file",
           "file_utils.check_for_existing_file"], sym=False, conc=6000, budget=40,
          cases=["any", "good"],
          note="bounded: trees of 15 files, up to 4 names, up to 3 lines in each of 3 list files")
def lists_resolve(v, mode):
    body(v, mode)


def pathstub(v, mod):
    """assumed contracts of os.path on normalised names (names may be symbolic)"""
    s = v.stub

    def splitext(p):
        for e in (".meta", ".txt", ".xml"):
            if p.endswith(e):
                return p[:-len(e)], e
        return p, ""
    s(os.path.splitext, splitext)
    s(os.path.isabs, lambda p: p.startswith("/"))
    s(os.path.join, lambda a, b: b if b.startswith("/") else a + "/" + b)
    s(os.path.normpath, lambda p: p)
    s(os.path.abspath, lambda p: p)
    s(os.path.isdir, lambda p: False)
    s(glob.has_magic, lambda p: False)


EXTS = [".meta", ".xml", ".md"]


@contract(["file_utils.create_file_list", "file_utils._create_file_list_int",
           "file_utils.add_unique_files", "file_utils.check_for_existing_file"],
          conc=1500, cases=[1, 2, 3],
          note="os.path, glob and os.access by assumed contracts on a ghost directory; names "
               "without wildcards; up to 3 names, all names of identifier characters")
def named_files_in_order(v, n):
    """any names (symbolic), any of them missing, unreadable, repeated or of another type"""
    fu = v.repo("file_utils")
    cce = v.repo("parse_tools").CCPPError
    fs = None if v.symbolic else FS.make(v)
    root = "/r" if v.symbolic else fs.path("")
    names, exts, exist, read = [], [], [], []
    for i in range(n):
        names.append(v.name("n%d" % i, pool=["a", "b", "ab"]))
        exts.append(v.choice("ext%d" % i, EXTS))
        exist.append(v.choice("exists%d" % i, [True, False]))
        read.append(v.choice("readable%d" % i, [True, False]) if exist[-1] else False)
    rels = [names[i] + exts[i] for i in range(n)]
    paths = [root + "/" + r for r in rels]
    # the same name is the same file
    first = []
    for i in range(n):
        k = i
        for j in range(i):
            if exts[i] == exts[j] and v.eq(names[i], names[j]):
                k = j
                break
        first.append(k)

    def lookup(p, table):
        for i in range(n):
            if v.eq(p, paths[i]):
                return table[first[i]]
        return False
    access = os.access
    try:
        if v.symbolic:
            pathstub(v, fu)
            v.stub(os.path.exists, lambda p: lookup(p, exist))
            v.stub(os.path.isfile, lambda p: lookup(p, exist))
            v.stub(os.access, lambda p, m: lookup(p, read))
            v.stub(glob.glob, lambda p: [p] if lookup(p, exist) else [])
        else:
            for i in range(n):
                if exist[first[i]]:
                    fs.write(rels[i], "x")
            os.access = lambda p, m, **k: lookup(p, read)
        out = v.call(fu.create_file_list, list(rels), ["meta", "xml"], "Host", LOG,
                     catch=(cce,), root_path=root)
    finally:
        os.access = access
        if fs:
            fs.close()
    used = [i for i in range(n) if exts[i] in (".meta", ".xml")]
    bad = [i for i in used if not (exist[first[i]] and read[first[i]])]
    info = lambda: "%r exist %r readable %r -> %r" % (rels, exist, read, out)
    v.prove(out.ok == (not bad), "an error exactly when a named file is missing or unreadable", info)
    if out.ok:
        want = [paths[i] for i in used if first[i] == i]
        v.prove(len(out.value) == len(want), "every named file of a wanted type once", info)
        if len(out.value) == len(want):
            for a, b in zip(out.value, want):
                v.prove(v.eq(a, b), "files come in first-mention order", info)


class FakeFile:
    """a text file with the given (symbolic) lines"""

    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        return [x + "\n" for x in self.lines]

    def __iter__(self):
        return iter(self.readlines())

    def read(self):
        raise NotImplementedError


SHAPES = ["rel", "padded", "abs", "blank", "hash", "bang"]


@contract(["file_utils.read_pathnames_from_file"], conc=1500, cases=[1, 2, 3],
          note="open by an assumed contract returning the lines; os.path as in named_files_in_order")
def list_file_read_line_by_line(v, n):
    fu = v.repo("file_utils")
    fs = None if v.symbolic else FS.make(v)
    root = "/r/d" if v.symbolic else fs.path("d")
    lines, want = [], []
    for i in range(n):
        k = v.choice("shape%d" % i, SHAPES)
        nm = v.name("n%d" % i, pool=["a", "b", "ab"])
        if k == "rel":
            lines.append(nm + ".meta")
            want.append(root + "/" + nm + ".meta")
        elif k == "padded":
            lines.append("  \t" + nm + "/x.meta \t")
            want.append(root + "/" + nm + "/x.meta")
        elif k == "abs":
            lines.append("/" + nm + ".txt")
            want.append("/" + nm + ".txt")
        elif k == "blank":
            lines.append("   ")
        else:
            lines.append(" " + {"hash": "#", "bang": "!"}[k] + nm)
    lfile = root + "/l.txt"
    try:
        if v.symbolic:
            pathstub(v, fu)
            v.stub(os.path.dirname, lambda p: root)
            v.stub(os.path.exists, lambda p: True)
            v.stub(os.access, lambda p, m: True)
            v.stub(builtins.open, lambda p, *a, **k: FakeFile(lines))
        else:
            fs.mkdir("d")
            fs.write("d/l.txt", "".join(x + "\n" for x in lines))
        out = v.call(fu.read_pathnames_from_file, lfile, "Host")
    finally:
        if fs:
            fs.close()
    v.prove(out.ok, "the list file is read", lambda: repr(out.exc))
    got, errs = out.value
    v.prove(not errs, "no error")
    v.prove(len(got) == len(want), "one path for every line that is not blank or a comment",
            lambda: "%r -> %r" % (lines, got))
    if len(got) == len(want):
        for a, b in zip(got, want):
            v.prove(v.eq(a, b), "relative paths are taken relative to the list file",
                    lambda: "%r -> %r" % (lines, got))
