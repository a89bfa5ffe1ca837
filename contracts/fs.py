"""A file system the contracts can speak about.

  real (concrete runs):   a scratch directory, created and removed by the contract;
  ghost (proof runs):     a map from path to symbolic contents, with the assumed contracts of
                          the operating-system functions (os.*, os.path.*, filecmp.cmp, shutil.*,
                          glob.glob, open) stated as operations on that map.
Paths are concrete here; contents, existence and time stamps may be symbolic."""
import builtins
import filecmp
import fnmatch
import glob
import io
import os
import shutil
import tempfile

WALK = os.walk
P = os.path


class RealFS:
    def __init__(self, v):
        self.v = v
        self.root = tempfile.mkdtemp(prefix="fs_")

    def path(self, p):
        return P.join(self.root, p) if p else self.root

    def mkdir(self, p):
        os.makedirs(self.path(p), exist_ok=True)

    def write(self, p, content, stamp=None):
        with open(self.path(p), "w") as fh:
            fh.write(content)
        if stamp is not None:
            os.utime(self.path(p), (stamp, stamp))

    def snapshot(self, p):
        st = os.stat(self.path(p))
        return (st.st_ino, st.st_mtime_ns)

    def untouched(self, p, snap):
        return P.isfile(self.path(p)) and self.snapshot(p) == snap

    def isfile(self, p):
        return P.isfile(self.path(p))

    def isdir(self, p):
        return P.isdir(self.path(p))

    def read(self, p):
        with open(self.path(p)) as fh:
            return fh.read()

    def files(self, p=""):
        out = []
        for r, _, fs in WALK(self.path(p)):
            out += [P.relpath(P.join(r, f), self.root) for f in fs]
        return sorted(out)

    def unreadable(self, p):
        self.v.stubbed_access = None

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.root, ignore_errors=True)


class GhostFS:
    """path -> [contents, time stamp, identity]; directories: set of paths"""

    def __init__(self, v):
        self.v = v
        self.root = P.join(os.getcwd(), "ghost")
        self.f = {}
        self.d = {"/"}
        self.cwd = os.getcwd()
        self._parents(P.join(self.root, "x"))
        self._parents(P.join(self.cwd, "x"))
        self.d.add(self.root)
        self.d.add(self.cwd)
        self.ident = 0
        self.denied = set()
        s = v.stub
        s(os.path.exists, self.o_exists)
        s(os.path.lexists, self.o_exists)
        s(os.path.isfile, lambda p: self.n(p) in self.f)
        s(os.path.isdir, lambda p: self.n(p) in self.d)
        s(os.path.abspath, self.n)
        s(os.path.realpath, self.n)
        s(os.access, lambda p, m: self.o_exists(p) and self.n(p) not in self.denied)
        s(os.walk, self.o_walk)
        s(os.listdir, self.o_listdir)
        s(os.replace, self.o_replace)
        s(os.rename, self.o_replace)
        s(os.remove, self.o_remove)
        s(os.unlink, self.o_remove)
        s(os.rmdir, self.o_rmdir)
        s(os.removedirs, self.o_removedirs)
        s(os.makedirs, self.o_makedirs)
        s(os.mkdir, self.o_mkdir)
        s(os.getcwd, lambda: self.cwd)
        s(os.chdir, self.o_chdir)
        s(os.path.relpath, lambda p, start=None: P.relpath(
            self.n(p), self.n(start) if start else self.cwd))
        s(filecmp.cmp, self.o_cmp)
        s(shutil.rmtree, self.o_rmtree)
        s(shutil.move, self.o_move)
        for c in (shutil.copy, shutil.copy2, shutil.copyfile):
            s(c, self.o_copy)
        s(glob.glob, self.o_glob)
        s(builtins.open, self.o_open)

    # -- paths
    def n(self, p):
        return P.normpath(P.join(self.cwd, p))

    def path(self, p):
        return P.join(self.root, p) if p else self.root

    def _parents(self, p):
        while p not in ("/", ""):
            p = P.dirname(p)
            self.d.add(p)

    def _children(self, p):
        pre = p.rstrip("/") + "/"
        return [x for x in list(self.f) + sorted(self.d) if x.startswith(pre) and x != p]

    # -- assumed contracts of the operating system
    def o_exists(self, p):
        p = self.n(p)
        return p in self.f or p in self.d

    def o_listdir(self, p="."):
        p = self.n(p)
        if p not in self.d:
            raise FileNotFoundError(p)
        return sorted({P.basename(x) for x in self._children(p) if P.dirname(x) == p})

    def o_walk(self, top, topdown=True, onerror=None, followlinks=False):
        t = self.n(top)
        if t not in self.d:
            return
        names = self.o_listdir(t)
        dirs = [x for x in names if P.join(t, x) in self.d]
        fls = [x for x in names if P.join(t, x) in self.f]
        if topdown:
            yield top, dirs, fls
        for x in dirs:
            yield from self.o_walk(P.join(top, x), topdown)
        if not topdown:
            yield top, dirs, fls

    def o_replace(self, a, b):
        a, b = self.n(a), self.n(b)
        if a not in self.f or P.dirname(b) not in self.d:
            raise FileNotFoundError(b)
        if b in self.d:
            raise IsADirectoryError(b)
        self.f[b] = self.f.pop(a) if a != b else self.f[a]

    def o_move(self, a, b):
        b = self.n(b)
        if b in self.d:
            b = P.join(b, P.basename(self.n(a)))
        self.o_replace(a, b)

    def o_copy(self, a, b):
        a, b = self.n(a), self.n(b)
        if b in self.d:
            b = P.join(b, P.basename(a))
        if a not in self.f or P.dirname(b) not in self.d:
            raise FileNotFoundError(b)
        if a == b:
            raise shutil.SameFileError(a)
        self.ident += 1
        self.f[b] = [self.f[a][0], None, self.ident]

    def o_remove(self, p):
        p = self.n(p)
        if p not in self.f:
            raise FileNotFoundError(p)
        del self.f[p]

    def o_rmdir(self, p):
        raw, p = p, self.n(p)
        if p not in self.d:
            raise FileNotFoundError(p)
        if self._children(p) or raw in ("", "."):
            raise OSError("cannot remove %s" % p)
        self.d.discard(p)

    def o_removedirs(self, p):
        self.o_rmdir(p)
        head, tail = P.split(p)
        if not tail:
            head, tail = P.split(head)
        while head and tail:
            try:
                self.o_rmdir(head)
            except OSError:
                break
            head, tail = P.split(head)

    def o_rmtree(self, p, ignore_errors=False, onerror=None, onexc=None):
        p = self.n(p)
        if p not in self.d:
            if ignore_errors:
                return
            raise FileNotFoundError(p)
        for x in self._children(p) + [p]:
            self.f.pop(x, None)
            self.d.discard(x)

    def o_makedirs(self, p, mode=0o777, exist_ok=False):
        p = self.n(p)
        if p in self.f or (p in self.d and not exist_ok):
            raise FileExistsError(p)
        self._parents(p)
        self.d.add(p)

    def o_mkdir(self, p, mode=0o777):
        p = self.n(p)
        if p in self.f or p in self.d:
            raise FileExistsError(p)
        if P.dirname(p) not in self.d:
            raise FileNotFoundError(p)
        self.d.add(p)

    def o_chdir(self, p):
        if p == "" or self.n(p) not in self.d:
            raise FileNotFoundError(p)
        self.cwd = self.n(p)

    def o_cmp(self, a, b, shallow=True):
        a, b = self.n(a), self.n(b)
        if a not in self.f or b not in self.f:
            raise FileNotFoundError(b)
        same = self.f[a][0] == self.f[b][0]
        if shallow:
            # equal size and time stamp count as equal (contents of one input are all of
            # the same length: see the contracts)
            return self.v.Or(same, self.f[a][1] == self.f[b][1])
        return same

    def o_glob(self, pat, **kw):
        if not glob.has_magic(pat):
            return [pat] if self.o_exists(pat) else []
        d, b = P.split(pat)
        return [P.join(d, x) for x in self.o_listdir(d or ".") if fnmatch.fnmatch(x, b)] \
            if self.n(d or ".") in self.d else []

    def o_open(self, p, mode="r", *a, **k):
        p = self.n(p)
        if p not in self.f:
            raise FileNotFoundError(p)
        if mode != "r" or not isinstance(self.f[p][0], str):
            raise NotImplementedError("ghost open")
        return io.StringIO(self.f[p][0])

    # -- contract side
    def mkdir(self, p):
        self._parents(self.path(p))
        self.d.add(self.path(p))

    def write(self, p, content, stamp=None):
        self.ident += 1
        self.f[self.path(p)] = [content, stamp, self.ident]

    def snapshot(self, p):
        return self.f[self.path(p)][2]

    def untouched(self, p, snap):
        x = self.path(p)
        return x in self.f and self.f[x][2] == snap

    def isfile(self, p):
        return self.path(p) in self.f

    def isdir(self, p):
        return self.path(p) in self.d

    def read(self, p):
        return self.f[self.path(p)][0]

    def files(self, p=""):
        pre = self.path(p).rstrip("/") + "/"
        return sorted(P.relpath(x, self.root) for x in self.f if x.startswith(pre))

    def close(self):
        pass


def make(v):
    return GhostFS(v) if v.symbolic else RealFS(v)
