"""Deleting by extension: exactly the matching files, only where asked. Nothing real is ever touched: the os module is
replaced by a directory tree on paper that records removals."""
import os

from props.h import *
from symx.strs import FS, Letters, Node, SymStr

ASSUMES = ["file names of the stated lengths over an unbounded alphabet plus '.'; links only in the goal about links; os replaced "
           "by a recorder",
           "the extension starts with a dot"]
ROOT = "/nowhere-verif/f"


def name(env, tag, n, letters):
    """n letters, each free or a dot"""
    out = []
    for i in range(n):
        if env.boolean(f"{tag}{i} is a dot"):
            out.append(".")
        else:
            v = env.real(f"{tag}{i}", 0, 100)
            out.append(v if env.symbolic else letters(v))
    return SymStr(out) if env.symbolic else "".join(out)


def ends(env, a, b):
    return env.decide(a.endswith(b))


def differ(env, names):
    for i in range(len(names)):
        for j in range(i):
            r = names[i] == names[j]
            env.require(env.NOT(r))


def run(env):
    g = env.m.general
    L = Letters()
    el = env.p.ext
    ext = "." + name(env, "e", el, L)
    if not env.symbolic and not isinstance(ext, str):
        env.stop()
    lens = env.p.lens
    top = [name(env, f"n{k}.", n, L) for k, n in enumerate(lens)]
    differ(env, top)
    for t in top:
        env.require(not all(c == "." for c in (t.items if env.symbolic else t)) )
    inner = name(env, "i", env.p.inner, L)
    sub = name(env, "d", env.p.sub, L)
    for t in (inner, sub):
        env.require(not all(c == "." for c in (t.items if env.symbolic else t)))
    differ(env, top + [sub])
    kid = Node(inner)
    fs = FS(ROOT, [Node(t) for t in top] + [Node(sub, [kid])])
    deep = env.boolean("subfolders too")
    env.m.box["fs"] = fs
    try:
        if deep:
            g.delete_files_with_extension(ROOT, ext, True) if env.boolean("by position") else \
                g.delete_files_with_extension(ROOT, ext, deleteInSubDirectories=True)
        else:
            g.delete_files_with_extension(ROOT, ext)
    finally:
        env.m.box.pop("fs", None)
    env.true(not fs.strange, "only existing files are removed, never folders or anything outside")
    for n in fs.nodes():
        if n.isdir:
            continue
        want = (n.up is fs.root or deep) and ends(env, n.name, ext)
        gone = n in fs.removed
        if want:
            env.true(gone, "files with the extension are removed")
        elif n.up is not fs.root and not deep:
            env.true(not gone, "subfolders are left alone unless asked")
        else:
            env.true(not gone, "other files are kept")
    env.true(len(set(map(id, fs.removed))) == len(fs.removed), "each once")


def cases(env):
    """letter case and look-alikes, by name"""
    g = env.m.general
    ext = env.pick([".txt", ".tar.gz"])
    keep = ["a.TXT", "txt", "a.txt2", "a.txt.bak", "atxt", "a.tar", "b.gz", "x.tar.gz.old", "a.tx"]
    drop = {".txt": ["a.txt", ".txt", "b.c.txt"], ".tar.gz": ["a.tar.gz", ".tar.gz"]}[ext]
    other = {".txt": ["a.tar.gz"], ".tar.gz": ["a.txt"]}[ext]
    kids = [Node(n) for n in keep + other + drop] + [Node("sub" + ext, [Node("in" + ext), Node("in.other")]),
                                                    Node("empty", [])]
    fs = FS(ROOT, kids)
    deep = env.boolean("subfolders too")
    env.m.box["fs"] = fs
    try:
        g.delete_files_with_extension(ROOT, ext, deep)
    finally:
        env.m.box.pop("fs", None)
    env.true(not fs.strange, "only existing files are removed, never folders or anything outside")
    want = set(drop) | ({"in" + ext} if deep else set())
    env.true({n.name for n in fs.removed} == want, "exactly the names ending in the extension")


def deep(env):
    """folders within folders, many files in each"""
    g = env.m.general
    n, d = env.p.n, env.p.d
    ext = env.pick([".txt", ".log"])

    def folder(k):
        # (a folder before, among and behind the files; one of them named like a file)
        files = [Node(f"f{k}-{i}" + (".txt", ".log", ".txt.log", "txt")[i % 4]) for i in range(n)]
        subs = [folder(k + 1), Node(f"side{k}", [Node(f"s{k}.txt"), Node(f"s{k}.log")])] if k < d else []
        at = [0, n // 2, n][(k + 1) % 3]
        return Node(f"d{k}" + (".txt" if k == 2 else ""), files[:at] + subs + files[at:])
    fs = FS(ROOT, folder(0).kids)
    down = env.boolean("subfolders too")
    env.m.box["fs"] = fs
    try:
        g.delete_files_with_extension(ROOT, ext, down)
    finally:
        env.m.box.pop("fs", None)
    env.true(not fs.strange, "only existing files are removed, never folders or anything outside")
    for x in fs.nodes():
        if not x.isdir:
            want = x.name.endswith(ext) and (down or x.up is fs.root)
            env.true((x in fs.removed) == want, "exactly the names ending in the extension, at any depth")
    env.true(len(set(map(id, fs.removed))) == len(fs.removed), "each once")


def links(env):
    """links: a link is removed itself when it leads to a file and has the name; what it leads to never is"""
    g = env.m.general
    far = Node("/nowhere-verif/o", [Node("c.txt"), Node("d.other"), Node("deep", [Node("e.txt")])])
    ext = ".txt"
    target = env.pick(["folder", "file", "nothing", "above"])
    lname = env.pick(["link", "link.txt"])
    sub = Node("sub", [Node("b.txt"), Node("b.other")])
    kids = [Node("a.txt"), Node("z.other"), sub]
    where = env.pick(["top", "sub"])
    fs = FS(ROOT, kids, [far])
    to = {"folder": far, "file": far.kids[0], "nothing": False, "above": fs.root if where == "sub" else far}[target]
    link = Node(lname, link=to)
    home = fs.root if where == "top" else sub
    home.own.append(link)
    link.up = home
    deep = env.boolean("subfolders too")
    env.m.box["fs"] = fs
    try:
        g.delete_files_with_extension(ROOT, ext, deep)
    finally:
        env.m.box.pop("fs", None)
    env.true(not fs.strange, "only existing files are removed, never folders or anything outside")
    for n in fs.nodes(far):
        env.true(n not in fs.removed, "nothing outside the folder is removed through a link")
    for n in fs.nodes(fs.root):
        if n.islink:
            if n.isdir:
                env.true(n not in fs.removed, "links to folders stay")
            elif n.link:
                want = n.name.endswith(ext) and (deep or n.up is fs.root)
                env.true((n in fs.removed) == want, "links to files go by their own name")
        elif not n.isdir:
            want = n.name.endswith(ext) and (deep or n.up is fs.root)
            env.true((n in fs.removed) == want, "exactly the names ending in the extension")


def goals(tier):
    q = tier == "quick"
    out = [Goal("names", run, dict(ext=1, lens=[2, 3], inner=2, sub=2),
                bounds="extension '.' + 1 character, two files (2 and 3 characters), a folder with a file (2 each)"),
           Goal("longer extension", run, dict(ext=2, lens=[4 if not q else 3], inner=3, sub=3),
                bounds="extension '.' + 2 characters, one file and a folder with a file (3 or 4 characters)"),
           Goal("links", links, bounds="a link at the top or in the subfolder, to a folder, a file, nothing or upwards"),
           Goal("deep", deep, dict(n=24, d=6 if q else 20), bounds="6 (thorough 20) folders within each other, 24 files in each"),
           Goal("look-alikes", cases, bounds="fixed names differing in case, position and number of dots")]
    if not q:
        out.append(Goal("many names", run, dict(ext=1, lens=[3, 3, 2], inner=3, sub=2), bounds="three files, a folder with one"))
    return out
