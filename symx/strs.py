"""Strings with symbolic letters, and a file system that exists only on paper.

A symbolic letter is a real-valued unknown; two letters are the same when their values are, and no symbolic letter
equals a character written in the code. Concretely, equal values become the same private-use character."""
import os as _os
import types

from . import core
from .core import SymReal, Unsupported, band, bor


class SymStr(str):
    """a string of known length whose items are characters or symbolic letters"""

    def __new__(cls, items=()):
        s = str.__new__(cls, "".join(c if isinstance(c, str) else "?" for c in items))
        s.items = tuple(items)
        return s

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return (SymStr((c,)) for c in self.items)

    def __getitem__(self, i):
        return SymStr(self.items[i]) if isinstance(i, slice) else SymStr((self.items[i],))

    def __add__(self, o):
        return SymStr(self.items + items(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return SymStr(items(o) + self.items) if isinstance(o, str) else NotImplemented

    def __eq__(self, o):
        return same(self.items, items(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, core.SymBool) else not r

    __hash__ = str.__hash__

    def endswith(self, e, *a):
        if a:
            raise Unsupported("endswith range")
        if isinstance(e, tuple):
            return bor(*[self.endswith(x) for x in e])
        k = len(e)
        return len(self) >= k and same(self.items[len(self) - k:], items(e))

    def startswith(self, e, *a):
        if a:
            raise Unsupported("startswith range")
        if isinstance(e, tuple):
            return bor(*[self.startswith(x) for x in e])
        return len(self) >= len(e) and same(self.items[:len(e)], items(e))

    def __contains__(self, e):
        return bool(bor(*[same(self.items[i:i + len(e)], items(e)) for i in range(len(self) - len(e) + 1)]))

    def find(self, e, *a):
        if a:
            raise Unsupported("find range")
        for i in range(len(self) - len(e) + 1):
            if same(self.items[i:i + len(e)], items(e)):
                return i
        return -1

    def rfind(self, e, *a):
        if a:
            raise Unsupported("rfind range")
        for i in range(len(self) - len(e), -1, -1):
            if same(self.items[i:i + len(e)], items(e)):
                return i
        return -1

    def count(self, e, *a):
        if a or len(e) != 1:
            raise Unsupported("count")
        return sum(1 for c in self.items if same((c,), items(e)))

    def index(self, e, *a):
        i = self.find(e, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rpartition(self, e):
        i = self.rfind(e)
        return (self[:i], e, self[i + len(e):]) if i >= 0 else (SymStr(), SymStr(), self)

    def partition(self, e):
        i = self.find(e)
        return (self[:i], e, self[i + len(e):]) if i >= 0 else (self, SymStr(), SymStr())

    def split(self, e=None, n=-1):
        if e is None:
            raise Unsupported("split")
        out, s = [], self
        while n != 0:
            i = s.find(e)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(e):]
            n -= 1
        return out + [s]

    def rsplit(self, e=None, n=-1):
        if e is None:
            raise Unsupported("rsplit")
        out, s = [], self
        while n != 0:
            i = s.rfind(e)
            if i < 0:
                break
            out.insert(0, s[i + len(e):])
            s = s[:i]
            n -= 1
        return [s] + out

    def removesuffix(self, e):
        return self[:len(self) - len(e)] if len(e) and self.endswith(e) else self

    def _map(self, f):
        return SymStr(tuple(getattr(c, f)() if isinstance(c, str) else c for c in self.items))

    def lower(self):
        return self._map("lower")

    def upper(self):
        return self._map("upper")

    def casefold(self):
        return self._map("casefold")

    def strip(self, c=None):
        if c is not None:
            raise Unsupported("strip")
        return self

    lstrip = rstrip = strip

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__str__(self)

    def __mod__(self, o):
        raise Unsupported("formatting")


for _n in ("replace", "join", "encode", "format", "translate", "splitlines", "title", "capitalize", "swapcase",
           "zfill", "center", "ljust", "rjust", "isalpha", "isdigit", "expandtabs", "removeprefix", "rindex"):
    def _no(self, *a, _n=_n, **k):
        raise Unsupported("str." + _n)
    setattr(SymStr, _n, _no)


def items(s):
    return s.items if isinstance(s, SymStr) else tuple(s)


def same(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, SymReal) and isinstance(y, SymReal):
            cs.append(x == y)
        elif isinstance(x, SymReal) or isinstance(y, SymReal) or x != y:
            return False
    return band(*cs)


class Letters:
    """concrete counterpart: equal values, equal characters"""

    def __init__(self):
        self.seen = {}

    def __call__(self, v):
        return self.seen.setdefault(float(v), chr(0xF000 + len(self.seen)))


# ------------------------------------------------------------------ paper file system
class Node:
    """a file, a folder (with kids) or a symbolic link (to a node, or to nothing when link is False)"""

    def __init__(self, name, kids=None, link=None):
        self.name, self.own, self.up, self.link = name, kids, None, link
        for k in kids or ():
            k.up = self

    @property
    def kids(self):
        return self.link.kids if self.link else self.own

    @property
    def isdir(self):                      # as os.path.isdir: links are followed
        return self.kids is not None

    @property
    def islink(self):
        return self.link is not None


class FS:
    """one directory tree under a root path; removals are recorded, nothing is touched"""

    def __init__(self, root, kids, others=()):
        """others: folders elsewhere (named by their full paths), to which links may lead"""
        self.root = Node(root, kids)
        self.others = list(others)
        self.removed, self.strange = [], []

    def path(self, n):
        return n.name if n.up is None else self.path(n.up) + "/" + n.name

    def nodes(self, n=None):
        if n is None:
            for r in [self.root] + self.others:
                yield from self.nodes(r)
            return
        yield n
        for k in n.own or ():
            yield from self.nodes(k)

    def paths(self, n, path, depth=0):
        """every way (also through links) to n and what is below it"""
        yield path, n
        if depth < 6:                          # (only links can lead round in circles)
            for k in n.kids or ():
                yield from self.paths(k, path + "/" + k.name, depth + 1 if k.islink or depth else 0)

    def at(self, p):
        p = _os.fspath(p) if not isinstance(p, str) else p
        it = list(items(p))
        while len(it) > 1 and it[-1] == "/":
            it.pop()
        for r in [self.root] + self.others:
            for path, n in self.paths(r, r.name):
                if n not in self.removed and _ident(it, items(path)):
                    return n
        raise FileNotFoundError(2, "No such file or directory")

    # --- os
    def listdir(self, p="."):
        n = self.at(p)
        if not n.isdir:
            raise NotADirectoryError(20, "Not a directory")
        return [k.name for k in n.kids if k not in self.removed]

    def scandir(self, p="."):
        n = self.at(p)
        return _Scan([_Entry(self, k, join(p, k.name)) for k in n.kids if k not in self.removed])

    def walk(self, p, topdown=True, onerror=None, followlinks=False):
        try:
            n = self.at(p)
        except FileNotFoundError:
            return
        if not n.isdir:
            return
        ds = [k.name for k in n.kids if k.isdir]
        fs = [k.name for k in n.kids if not k.isdir and k not in self.removed]
        if topdown:
            yield p, ds, fs
            for d in ds:
                if followlinks or not self.islink(join(p, d)):
                    yield from self.walk(join(p, d), topdown, onerror, followlinks)
        else:
            for d in ds:
                if followlinks or not self.islink(join(p, d)):
                    yield from self.walk(join(p, d), topdown, onerror, followlinks)
            yield p, ds, fs

    def remove(self, p):
        try:
            n = self.at(p)
        except FileNotFoundError:
            self.strange.append(p)
            raise
        if n.isdir and not n.islink:
            self.strange.append(p)
            raise IsADirectoryError(21, "Is a directory")
        self.removed.append(n)

    unlink = remove

    def other(self, *a, **k):
        self.strange.append(a)

    rmdir = removedirs = rename = replace = renames = truncate = mkdir = makedirs = other

    # --- os.path
    def isfile(self, p):
        try:
            n = self.at(p)
            return not n.isdir and n.link is not False
        except FileNotFoundError:
            return False

    def isdir(self, p):
        try:
            return self.at(p).isdir
        except FileNotFoundError:
            return False

    def exists(self, p):
        return self.isfile(p) or self.isdir(p)

    def lexists(self, p):
        try:
            self.at(p)
            return True
        except FileNotFoundError:
            return False

    def islink(self, p):
        try:
            return self.at(p).islink
        except FileNotFoundError:
            return False

    def join(self, *a):
        return join(*a)

    def splitext(self, p):
        it = items(p)
        s = max((i for i, c in enumerate(it) if c == "/"), default=-1)
        d = max((i for i, c in enumerate(it) if i > s and c == "."), default=-1)
        if d < 0 or all(c == "." for c in it[s + 1:d]):
            return p, p[:0]
        return p[:d], p[d:]

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def split(self, p):
        it = items(p)
        s = max((i for i, c in enumerate(it) if c == "/"), default=-1)
        return (p[:s] if s > 0 else p[:s + 1]), p[s + 1:]

    def abspath(self, p):
        return p

    normpath = realpath = expanduser = abspath


class _Entry:
    def __init__(self, fs, n, path):
        self.fs, self.n, self.name, self.path = fs, n, n.name, path

    def is_file(self, follow_symlinks=True):
        return (not self.n.isdir and self.n.link is not False) if follow_symlinks else not (self.n.isdir or self.n.islink)

    def is_dir(self, follow_symlinks=True):
        return self.n.isdir and (follow_symlinks or not self.n.islink)

    def is_symlink(self):
        return self.n.islink

    def __fspath__(self):
        return self.path


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _ident(a, b):
    return len(a) == len(b) and all(
        (x - y).num.is_zero() if isinstance(x, SymReal) and isinstance(y, SymReal) else
        not isinstance(x, SymReal) and not isinstance(y, SymReal) and x == y for x, y in zip(a, b))


def join(p, *more):
    for q in more:
        if items(q)[:1] == ("/",):
            p = q
        elif not len(p) or items(p)[-1] == "/":
            p = p + q
        else:
            p = p + "/" + q
    return p


class _Late:
    """the paper file system when one is set, refusing anything it lacks; never the real one for changes"""
    HARM = {"remove", "unlink", "rmdir", "removedirs", "rename", "replace", "renames", "truncate", "system", "popen",
            "kill", "chmod", "chown", "mkdir", "makedirs", "symlink", "link", "execv", "fork", "open", "write"}

    def __init__(self, real, box, name):
        self._real, self._box, self._name = real, box, name

    def get(self, k):
        v = getattr(self._real, k)
        if not callable(v) or isinstance(v, type):
            return v

        def call(*a, **kw):
            fs = self._box.get("fs")
            if fs is not None and k != "fspath":
                f = getattr(fs, k, None)
                if f is None:
                    raise Unsupported(f"{self._name}.{k}")
                return f(*a, **kw)
            if k in self.HARM:
                raise Unsupported(f"{self._name}.{k} without a paper file system")
            return v(*a, **kw)
        call.__name__ = k
        return call


def make_os(box):
    """(os, os.path) stand-ins sharing the box's file system"""
    lp, lo = _Late(_os.path, box, "os.path"), _Late(_os, box, "os")

    class PathMod(types.ModuleType):
        def __getattr__(self, k):
            return lp.get(k)

    class OsMod(types.ModuleType):
        def __getattr__(self, k):
            return lo.get(k)
    path = PathMod("posixpath")
    o = OsMod("os")
    o.path = path
    return o, path


class Refuse(types.ModuleType):
    """modules that reach the file system by other roads: refused while a paper file system is set"""

    def __init__(self, name, box):
        super().__init__(name)
        self.__dict__["_box"] = box

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        name = self.__name__

        def f(*a, **kw):
            raise Unsupported(f"{name}.{k}")
        return f
