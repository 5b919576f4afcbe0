"""Solver access: in-process z3 first, then a race of external solvers."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "external": 0}


def _alg_to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def model_of(solver, zvars):
    m = solver.model()
    out = {}
    for name, zv in zvars.items():
        v = m.eval(zv, model_completion=True)
        if z3.is_true(v) or z3.is_false(v):
            out[name] = z3.is_true(v)
            continue
        f = _alg_to_fraction(v)
        if f is None:
            return None
        out[name] = f
    return out


def _fresh(timeout_ms, kind):
    if kind == "nlsat":
        s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
    elif kind == "nra":
        s = z3.SolverFor("QF_NRA")
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    return s


def check_inproc(cons, timeout_ms, zvars=None, kind="default"):
    s = _fresh(timeout_ms, kind)
    for c in cons:
        s.add(c)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    if r == z3.sat:
        mdl = None
        if zvars is not None:
            try:
                mdl = model_of(s, zvars)
            except z3.Z3Exception:
                mdl = None
        return "sat", mdl
    return str(r), None


_DEC = re.compile(r"\(\s*\|?([^\s|()]+)\|?\s+(.*?)\)\s*$")


def _parse_val(txt):
    txt = txt.strip()
    if txt in ("true", "false"):
        return txt == "true"
    toks = re.findall(r"\(|\)|[^\s()]+", txt)

    def ev(i):
        if toks[i] == "(":
            op = toks[i + 1]
            args = []
            i += 2
            while toks[i] != ")":
                v, i = ev(i)
                args.append(v)
            i += 1
            if op == "-":
                return (-args[0] if len(args) == 1 else args[0] - args[1]), i
            if op == "/":
                return args[0] / args[1], i
            raise ValueError(op)
        t = toks[i].rstrip("?")
        return Fraction(t), i + 1
    try:
        v, _ = ev(0)
        return v
    except (ValueError, IndexError, ZeroDivisionError):
        return None


def check_external(cons, timeout_s, zvars=None):
    """race z3 (two releases) and cvc5 on the SMT-LIB text"""
    s = z3.Solver()
    for c in cons:
        s.add(c)
    body = s.to_smt2()
    body = body.replace("(check-sat)", "")
    names = list(zvars) if zvars else []
    tmp = tempfile.mkdtemp(prefix="symx")
    procs = []
    t0 = time.time()
    try:
        def launch(tag, argv, text):
            f = os.path.join(tmp, tag + ".smt2")
            with open(f, "w") as fh:
                fh.write(text)
            out = open(os.path.join(tmp, tag + ".out"), "w+")
            p = subprocess.Popen(["/bin/sh", "-c", "ulimit -v 6000000; exec \"$@\"", "sh"] + argv + [f],
                                 stdout=out, stderr=subprocess.STDOUT)
            procs.append((tag, p, out))
        decl = set(re.findall(r"\(declare-fun \|?([^\s|]+)\|? ", body))
        gv = ""
        want = [n for n in names if n in decl]
        if want:
            gv = "(get-value (" + " ".join(f"|{n}|" if not re.fullmatch(r"[A-Za-z_][\w.]*", n) else n
                                            for n in want) + "))\n"
        opt = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n"
        has_int = "Int" in body
        for b, tag in (("z3-new", "z3n"), ("z3", "z3o")):
            if shutil.which(b):
                tac = "(check-sat)\n" if (has_int or tag == "z3o") else "(check-sat-using (then simplify purify-arith propagate-values solve-eqs qfnra-nlsat))\n"
                launch(tag, [b], opt + body + tac + gv)
        if shutil.which("z3-new"):
            launch("z3d", ["z3-new"], opt + body + "(check-sat)\n" + gv)
        if shutil.which("cvc5"):
            launch("cvc5", ["cvc5", "--nl-cov", "--produce-models"],
                   "(set-logic ALL)\n" + re.sub(r"\(set-(info|logic)[^\n]*\n", "", body) + "(check-sat)\n")
        res = ("unknown", None)
        live = list(procs)
        while live and time.time() - t0 < timeout_s:
            for item in list(live):
                tag, p, out = item
                if p.poll() is None:
                    continue
                live.remove(item)
                out.flush()
                out.seek(0)
                txt = out.read()
                first = txt.strip().split("\n", 1)
                if "(error" in txt and first[0] not in ("sat", "unsat"):
                    continue
                if "(error" in first[0]:
                    continue
                if first[0] == "unsat":
                    res = ("unsat", None)
                    live = []
                    break
                if first[0] == "sat":
                    mdl = None
                    if want and len(first) > 1 and tag != "cvc5":
                        mdl = {}
                        for line in first[1].strip().splitlines():
                            line = line.strip()
                            if line.startswith("(("):
                                line = line[1:]
                            if line.endswith("))"):
                                pass
                            mm = re.match(r"\(\s*\|?([^\s|()]+)\|?\s+(.*)\)", line)
                            if mm:
                                val = mm.group(2)
                                while val.count(")") > val.count("("):
                                    val = val[:-1]
                                v = _parse_val(val)
                                if v is not None:
                                    mdl[mm.group(1)] = v
                        if len(mdl) < len(want):
                            mdl = None
                        else:
                            for n in names:
                                mdl.setdefault(n, Fraction(0))
                    if mdl is not None or not zvars:
                        res = ("sat", mdl)
                        live = []
                        break
                    res = ("sat", None)
            time.sleep(0.01)
    finally:
        for tag, p, out in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            out.close()
        shutil.rmtree(tmp, ignore_errors=True)
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    STATS["external"] += 1
    STATS[res[0]] = STATS.get(res[0], 0) + 1
    return res


def decide(cons, t_in_ms, t_ext_s, zvars=None):
    r, m = check_inproc(cons, t_in_ms, zvars)
    if r == "unknown" or (r == "sat" and zvars is not None and m is None):
        if t_ext_s > 0:
            r2, m2 = check_external(cons, t_ext_s, zvars)
            if r2 != "unknown":
                return r2, m2
        if r == "sat":
            return r, m
    return r, m
