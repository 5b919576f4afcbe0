"""Path exploration, obligation discharge, counterexample replay."""
import math
import os
import random
import sys
import time
import traceback

import numpy as np
import z3

from . import core, loader, solver
from .core import Ctx, Infeasible, PathAbort, SymBool, Unsupported, bnot, zq
from .env import AssumeFailed, ConcreteEnv, Stop, SymEnv
from .poly import F, TooBig
from fractions import Fraction


class Violation(BaseException):
    def __init__(self, info):
        self.info = info


class KnownHit(PathAbort):
    """this path ends in a recorded finding"""


class Cfg:
    """time limits (seconds) of one tier"""

    def __init__(self, tier):
        thorough = tier == "thorough"
        self.t_feas = 4.0 if thorough else 1.0
        self.t_in = 30.0 if thorough else 6.0
        self.t_ext = 90.0 if thorough else 20.0
        self.slices = 6 if thorough else 3
        self.t_slice = 10.0 if thorough else 3.0
        self.thorough = thorough

    def low(self):
        """what is left when the time budget of a check is spent: search, hardly any proof"""
        self.t_feas, self.t_in, self.t_ext, self.slices, self.t_slice = 0.3, 0.5, 0, 1, 0.5
        self.thorough = True

    def restart(self):
        """a new path"""
        self.full = self.full if hasattr(self, "full") else (self.t_in, self.t_ext, self.slices)
        self.t_in, self.t_ext, self.slices = self.full
        self.hard = 0

    def tire(self):
        """quick tier: after a few obligations of one path the solver could not decide, spend less on its others, so
        that the remaining paths get their turn"""
        self.hard += 1
        if not self.thorough and self.hard >= 3:
            self.t_in, self.t_ext, self.slices = min(self.t_in, 2.0), 0, 1


class Goal:
    """one harness with fixed parameters"""

    def __init__(self, name, fn, params=None, tol=1e-6, bounds="", cfg=None, max_depth=400, only_path=None,
                 exc_ok=(), weight=1, quick=True, round_domain=False):
        self.name, self.fn, self.params = name, fn, params or {}
        self.tol, self.bounds, self.cfg, self.max_depth = tol, bounds, cfg or {}, max_depth
        self.exc_ok = exc_ok
        self.weight = weight
        self.round_domain = round_domain


class P(dict):
    __getattr__ = dict.__getitem__


SLOW = float(os.environ.get("SYMX_SLOW", "0"))


class Engine:
    def __init__(self, goal, cfg, seed):
        self.goal, self.cfg, self.seed = goal, cfg, seed
        for k, v in goal.cfg.items():
            setattr(self.cfg, k, v)
        self.tol = goal.tol
        self.max_depth = goal.max_depth
        self.round_domain = goal.round_domain
        self.stack = []
        self.n = dict(paths=0, infeasible=0, obligations=0, by_norm=0, by_const=0, by_solver=0, by_margin=0,
                      by_slice=0, undecided=0, forks=0, validated=0, unvalidated=0, feas_unknown=0,
                      feas_queries=0, decisions=0, spurious=0, degenerate=0, unsupported=0)
        self.notes = []
        self.undecided = []
        self.funcs = set()
        self.samples = []
        self.labels = {}
        self.deadline = None
        self.known = []
        self.known_hits = {}

    # ------------------------------------------------------------------ hooks
    def push(self, prefix, weight=0):
        """remember a branch for later; paths with witnesses are explored before rare ones"""
        self.stack.append((weight, prefix))
        self.n["forks"] += 1

    def note(self, s):
        if s not in self.notes and len(self.notes) < 40:
            self.notes.append(s)

    def note_incomplete(self, why):
        self.note("incomplete: " + why)
        self.n["undecided"] += 1

    def feasible(self, ctx, sb):
        extra = [sb] if sb is not None else []
        zs, gens = ctx.constraints(extra)
        zv = {ctx.gens[g].name: ctx.gens[g].z for g in gens}
        self.n["feas_queries"] += 1
        r, mdl = solver.check_inproc(zs, self.cfg.t_feas * 1000, zv)
        if r == "unknown":
            self.n["feas_unknown"] += 1
        if r == "sat" and mdl is not None:
            # remember the model as a witness sample (slot chosen round robin)
            k = self._slot = (getattr(self, "_slot", 0) + 1) % 40
            if len(mdl) == len(zv):
                for g in gens:
                    ctx.gens[g].samp = np.array(ctx.gens[g].samp)
                    ctx.gens[g].samp[k] = float(mdl[ctx.gens[g].name])
                ctx.mask[k] = True
        return r

    # ------------------------------------------------------------ obligations
    def count_norm(self, ctx, label):
        if ctx.past_prefix():
            self.n["obligations"] += 1
            self.n["by_norm"] += 1
            self._lab(label)

    def _lab(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def discharge(self, ctx, env, c, robust, label):
        if not ctx.past_prefix():
            return
        self.n["obligations"] += 1
        self._lab(label)
        if isinstance(c, (bool, np.bool_)) and not c and robust is not None:
            c = robust[0](robust[1])        # not exact: within the tolerance?
            c = (not c) if isinstance(c, (bool, np.bool_)) else ~c
            if isinstance(c, (bool, np.bool_)) and c:
                self.n["by_margin"] += 1
                return
        if isinstance(c, (bool, np.bool_)):
            if c:
                self.n["by_const"] += 1
                return
            self.candidate(ctx, env, [], label)
            return
        if not isinstance(c, SymBool):
            if c:
                self.n["by_const"] += 1
                return
            self.candidate(ctx, env, [], label)
            return
        neg = ~c
        if not isinstance(neg, SymBool):
            neg = bnot(c)
        rob = None
        if robust is not None:
            f, tol = robust
            rob = f(tol)
            if rob is False:
                self.n["by_margin"] += 1
                return
        # 1. counterexamples among the known witnesses of this path (they survive floating point)
        test = rob if isinstance(rob, SymBool) else neg
        bad = np.nonzero(ctx.mask & test.ev())[0]
        for k in bad[:3]:
            self.try_replay(ctx, env, ctx.values_from_sample(int(k)), label)
        if ctx.nround:                          # enough for a proof, mostly
            zs, _ = ctx.constraints([neg], cut=True)
            if solver.check_inproc(zs, self.cfg.t_in * 1000)[0] == "unsat":
                self.n["by_solver"] += 1
                return
        # 2. the solver
        r, mdl = self.solve(ctx, [neg], self.cfg.t_in)
        if r == "unsat":
            self.n["by_solver"] += 1
            return
        if r == "sat" and mdl is not None and self.try_replay(ctx, env, mdl, label, soft=True):
            return
        if r == "sat" and mdl is not None and ctx.nround:
            self.around(ctx, env, mdl, label)
        if isinstance(rob, SymBool):
            r2, mdl2 = self.solve(ctx, [rob], self.cfg.t_in)
            if r2 == "unsat":
                self.n["by_margin"] += 1
                return
            if r2 == "sat" and mdl2 is not None:
                if self.try_replay(ctx, env, mdl2, label, soft=True):
                    return
            r, mdl, neg = r2, mdl2, rob
        if r == "unknown" and self.cfg.t_ext > 0:
            r, mdl = self.solve_ext(ctx, [neg])
            if r == "unsat":
                self.n["by_solver" if neg is not rob else "by_margin"] += 1
                return
            if r == "sat" and mdl is not None:
                self.try_replay(ctx, env, mdl, label, soft=True)
        if r == "sat":
            # larger margins: a model that survives floating point
            if robust is not None:
                for mul in (1e2, 1e4, 1e5):
                    rb = robust[0](robust[1] * mul)
                    if not isinstance(rb, SymBool):
                        break
                    r3, m3 = self.solve(ctx, [rb], self.cfg.t_in)
                    if r3 == "sat" and m3 is not None:
                        self.try_replay(ctx, env, m3, label, soft=True)
                    elif r3 == "unsat":
                        break
            self.replay_degenerate(ctx, env, [neg], label)
            if mdl is not None and not ctx.nround and not ctx.eqpath and self.n.get("near_model", 0) < 4:
                self.n["near_model"] = self.n.get("near_model", 0) + 1
                self.around(ctx, env, mdl, label, 400, 4)
            self.n["spurious" if not ctx.eqpath else "degenerate"] += 1
            self.note(f"solver model for '{label}' did not reproduce on the real code")
            self.undecide(label, "model does not reproduce")
            return
        self.cfg.tire()
        # 3. smaller bounds: some inputs fixed to witness values
        if self.slice(ctx, env, neg, label):
            self.n["by_slice"] += 1
            return
        self.undecide(label, "solver: unknown")

    def undecide(self, label, why):
        self.n["undecided"] += 1
        s = f"{label}: {why}"
        if s not in self.undecided:
            self.undecided.append(s)

    def zin(self, ctx):
        return ctx.zinputs()

    def nice_fix(self, ctx, gens, level):
        """constraints that pin incidental inputs to simple values"""
        fix = []
        for n, v in ctx.inputs.items():
            g = ctx.gens[next(iter(v.gens()))]
            if g.id not in gens or g.nice is None:
                continue
            quat = n[-2:] in (".x", ".y", ".z", ".w") and len(g.deps) == 3
            if quat or n.endswith(".len") or n == "L" or (level > 1 and len(g.deps) == 0 and g.lo is not None
                                                         and g.lo < 0 and n[-2:] in (".x", ".y", ".z")):
                fix.append(g.z == zq(Fraction(g.nice)))
        return fix

    def replay_degenerate(self, ctx, env, extra, label, exc=None):
        """equality-pinned paths: look for models made of simple numbers, which floats
        represent exactly"""
        zs, gens = ctx.constraints(extra)
        for level in (2, 1):
            r, m = solver.check_inproc(zs + self.nice_fix(ctx, gens, level), self.cfg.t_in * 1000, self.zin(ctx))
            if r == "sat" and m is not None:
                self.try_replay(ctx, env, ctx.values_from_model(m, gens, nice=True), label, exc=exc)

    def solve(self, ctx, extra, t):
        zs, gens = ctx.constraints(extra)
        t0 = time.time()
        r, m = solver.check_inproc(zs, t * 1000, self.zin(ctx))
        if SLOW and time.time() - t0 > SLOW:
            print("SLOW", r, round(time.time() - t0, 1), self.goal.name, [str(e.z)[:400] for e in extra],
                  "PC", [str(z)[:300] for z in zs], "EQ", ctx.dec, file=sys.stderr, flush=True)
        if r == "sat" and m is not None:
            return r, ctx.values_from_model(m, gens)
        return r, None

    def solve_ext(self, ctx, extra):
        zs, gens = ctx.constraints(extra)
        r, m = solver.check_external(zs, self.cfg.t_ext, self.zin(ctx))
        if r == "sat" and m is not None:
            return r, ctx.values_from_model(m, gens)
        return r, None

    def around(self, ctx, env, mdl, label, tries=2500, secs=30):
        """the solver's model does not fail as it stands (rounding errors as large as the model's are possible, but the
        inputs decide what they are; an angle's value is bounded, not fixed, by its cosine and sine): replay inputs near
        the model's, and such of its kind, until the real code fails"""
        rnd = random.Random(self.seed)
        t0 = time.time()
        for i in range(tries):
            vals = dict(mdl)
            for n, v in ctx.inputs.items():
                g = ctx.gens[next(iter(v.gens()))]
                if n not in vals or g.lo is None or g.hi is None:
                    continue
                lo, hi = float(g.lo), float(g.hi)
                if i % 2:
                    x = float(vals[n]) * (1 + rnd.uniform(-1, 1) * 10.0 ** rnd.uniform(-6, -1))
                elif rnd.random() < 0.5:
                    x = math.copysign(math.exp(rnd.uniform(-7, 0)) * max(abs(lo), abs(hi)), rnd.choice([lo, hi]))
                else:
                    x = rnd.uniform(lo, hi)
                vals[n] = min(max(x, lo), hi)
            self.try_replay(ctx, env, vals, label, soft=True)
            if time.time() - t0 > secs:
                break

    def slice(self, ctx, env, neg, label):
        idx = np.nonzero(ctx.mask)[0]
        if not len(idx):
            return False
        rnd = random.Random(self.seed)
        zs, gens = ctx.constraints([neg])
        names = [n for n, v in ctx.inputs.items()]
        ok = 0
        for t in range(self.cfg.slices):
            k = int(rnd.choice(list(idx)))
            free = set(rnd.sample(names, min(2, len(names))))
            fix = []
            for n in names:
                g = ctx.gens[next(iter(ctx.inputs[n].gens()))]
                if n in free or g.kind == "angle" or n.endswith(".z"):
                    continue
                fix.append(g.z == zq(Fraction(float(g.samp[k])).limit_denominator(1000)))
            r, m = solver.check_inproc(zs + fix, self.cfg.t_slice * 1000, self.zin(ctx))
            if r == "unsat":
                ok += 1
            elif r == "sat" and m is not None:
                self.try_replay(ctx, env, ctx.values_from_model(m, gens), label, soft=True)
        return ok == self.cfg.slices

    def candidate(self, ctx, env, extra, label, exc=None):
        """the path itself breaks the property: find inputs reaching it"""
        idx = np.nonzero(ctx.mask)[0]
        for k in idx[:4]:
            self.try_replay(ctx, env, ctx.values_from_sample(int(k)), label, exc=exc)
        r, mdl = self.solve(ctx, extra, self.cfg.t_in)
        if r == "unknown" and self.cfg.t_ext > 0:
            r, mdl = self.solve_ext(ctx, extra)
        if r == "unsat":
            raise Infeasible()
        if r == "sat" and mdl is not None:
            self.try_replay(ctx, env, mdl, label, exc=exc)
        if r == "sat":
            self.replay_degenerate(ctx, env, extra, label, exc=exc)
            if mdl is not None and not ctx.eqpath and self.n.get("near_model", 0) < 4:
                self.n["near_model"] = self.n.get("near_model", 0) + 1
                self.around(ctx, env, mdl, label, 400, 4)
        self.n["spurious" if not ctx.eqpath and r == "sat" else "degenerate"] += 1
        self.note(f"'{label}' fails on a path whose model did not reproduce on the real code ({r})")
        self.undecide(label, "path condition model does not reproduce" if r == "sat" else "path feasibility unknown")

    # ----------------------------------------------------------------- replay
    def concrete(self, values, choices):
        cenv = ConcreteEnv(values, choices, loader.fresh_real_mods(), P(self.goal.params), tol=self.goal.tol)
        exc = None
        old = np.geterr()
        st = np.random.get_state()
        try:
            np.seterr(all="ignore")
            with _quiet():
                self.goal.fn(cenv)
        except (Stop,):
            pass
        except (AssumeFailed, Unsupported) as e:  # outside the domain, or a stand-in was asked for something it lacks
            cenv.assume_failed = not (isinstance(e, AssumeFailed) and cenv.failures)    # what failed before, failed
            return cenv, None
        except Exception as e:      # noqa
            if not isinstance(e, self.goal.exc_ok or ()):
                exc = f"{type(e).__name__}: {e}"
                cenv.failures.append(("no exception", exc + " at " + _where(e)))
        finally:
            np.seterr(**old)
            np.random.set_state(st)
        cenv.assume_failed = False
        return cenv, exc

    def try_replay(self, ctx, env, values, label, exc=None, soft=False):
        cenv, e = self.concrete(values, env.choices)
        if cenv.assume_failed:
            return False
        if cenv.failures:
            self.report(cenv, label, values, env)
        return False

    def report(self, cenv, wanted, values, env):
        info = dict(goal=self.goal.name, label=cenv.failures[0][0], detail=cenv.failures[0][1],
                    wanted=wanted, values=values, choices=list(env.choices))
        for kf in self.known:
            if kf["goal"] == self.goal.name and any(w in info["label"] for w in (
                    [kf["label"]] if isinstance(kf["label"], str) else kf["label"])) \
                    and kf.get("detail", "") in str(info["detail"]) \
                    and kf.get("choices", info["choices"]) == info["choices"]:
                self.known_hits[kf["id"]] = info
                raise KnownHit()
        raise Violation(info)

    # ---------------------------------------------------------------- running
    def run_path(self, prefix, mods, profile=False):
        ctx = Ctx(self, prefix)
        core.CUR = ctx
        env = SymEnv(ctx, mods, P(self.goal.params))
        self.n["paths"] += 1
        self.cfg.restart()
        done = False
        try:
            if profile:
                self._prof_on()
            try:
                with np.errstate(all="ignore"):
                    self.goal.fn(env)
            except SystemError as e:    # numpy went on in its loop with one of ours pending
                cause = e
                while cause.__cause__ is not None:
                    cause = cause.__cause__
                raise cause
            finally:
                if profile:
                    sys.setprofile(None)
            done = True
        except Stop:
            done = True
        except PathAbort:
            self.n["infeasible"] += 1
        except Unsupported as e:
            self.n["unsupported"] += 1
            self.note(f"unsupported: {e} at {_where(e)}")
            self.undecide("path", f"unsupported: {e}")
            self.spot_check(ctx, env)
        except TooBig as e:
            self.n["unsupported"] += 1
            self.note(f"expression too large: {e} at {_where(e)}")
            self.undecide("path", "expression too large")
            self.spot_check(ctx, env)
        except RecursionError:
            raise
        except Violation:
            raise
        except Exception as e:      # raised by the code under test
            if isinstance(e, self.goal.exc_ok or ()):
                done = True
            elif ctx.past_prefix():
                self.n["obligations"] += 1
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exc()
                try:
                    self.candidate(ctx, env, [], f"no exception ({type(e).__name__}: {e} at {_where(e)})",
                                   exc=type(e).__name__)
                except PathAbort:
                    self.n["infeasible"] += 1
        self.n["decisions"] += len(ctx.dec)
        if done:
            try:
                self.validate(ctx, env)
            except KnownHit:
                pass
        return ctx, env

    def spot_check(self, ctx, env):
        """a path that could not be encoded to its end stays undecided; its witnesses are run on the real code all the
        same"""
        try:
            for k in np.nonzero(ctx.mask)[0][:6]:
                self.try_replay(ctx, env, ctx.values_from_sample(int(k)), "witness")
        except KnownHit:
            pass

    def validate(self, ctx, env):
        """run the real code on a witness of this path"""
        idx = np.nonzero(ctx.mask)[0]
        if not len(idx):
            r, mdl = self.solve(ctx, [], self.cfg.t_feas)
            if r == "unsat":
                self.n["infeasible"] += 1
                return
            if mdl is not None:
                cenv, exc = self.concrete(mdl, env.choices)
                if not cenv.assume_failed and cenv.failures:
                    # measure-zero path; floats may sit on the other side: only a
                    # failing obligation counts
                    self.report(cenv, "validation", mdl, env)
            self.n["unvalidated"] += 1
            return
        bad = None
        for k in idx[:3]:
            vals = ctx.values_from_sample(int(k))
            cenv, exc = self.concrete(vals, env.choices)
            if cenv.assume_failed:
                continue
            if cenv.failures:
                self.report(cenv, "validation", vals, env)
            bad = self.compare_obs(ctx, env, cenv, int(k))
            if bad is None:
                self.n["validated"] += 1
                if len(self.samples) < 3:
                    self.samples.append(dict(goal=self.goal.name, decisions=len(ctx.dec), witness={
                        a: float(f"{b:.6g}") for a, b in list(vals.items())[:12]}, choices=list(env.choices)))
                return
        self.n["unvalidated"] += 1
        if bad is not None and not ctx.eqpath and ctx.clear_of_edges(int(k)):
            self.note("encoding/real mismatch on a witness: " + bad)
            self.n["mismatch"] = self.n.get("mismatch", 0) + 1

    def compare_obs(self, ctx, env, cenv, k):
        if len(env.observed) != len(cenv.observed):
            return "different number of observations"
        for (n, a), (n2, b) in zip(env.observed, cenv.observed):
            la = list(np.asarray(a, dtype=object).flat) if isinstance(a, (list, tuple, np.ndarray)) else [a]
            lb = list(np.asarray(b, dtype=object).flat) if isinstance(b, (list, tuple, np.ndarray)) else [b]
            if n != n2 or len(la) != len(lb):
                return f"observation {n}: shape"
            for x, y in zip(la, lb):
                if isinstance(x, (core.SymReal, float, int, np.number)) and not isinstance(x, bool):
                    xv = float(ctx.reval(x)[k])
                    yv = float(y) if y is not None else float("nan")
                    if not abs(xv - yv) <= 1e-5 * (1 + abs(xv) + abs(yv)):
                        xv = ctx.hp(x, k)       # rounding in the evaluation of the expression itself
                    if not abs(xv - yv) <= 1e-5 * (1 + abs(xv) + abs(yv)):
                        return f"observation {n}: encoding {xv!r}, real code {yv!r}"
                elif isinstance(x, (bool, str, type(None))) and x != y:
                    return f"observation {n}: encoding {x!r}, real code {y!r}"
        return None

    def _prof_on(self):
        root = loader.REPO + os.sep
        funcs = self.funcs

        def prof(frame, ev, arg):
            if ev == "call":
                co = frame.f_code
                if co.co_filename.startswith(root) and co.co_flags & 2:
                    funcs.add(co.co_filename[len(root):] + ":" + getattr(co, "co_qualname", co.co_name))
        sys.setprofile(prof)

    def explore(self, prefixes, until):
        self.stack = list(prefixes)
        first = True
        while self.stack:
            if not first and time.time() > until:
                break
            prefix = self.stack.pop(max(range(len(self.stack)), key=lambda i: (self.stack[i][0] > 0, i)))[1]
            space = loader.SymSpace()
            core.CUR = Ctx(self, [])
            mods = space.names()
            self.run_path(prefix, mods, profile=(self.n["paths"] < 6))
            first = False
        return self.stack


class _quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.f = open(os.devnull, "w")
        sys.stdout = self.f

    def __exit__(self, *a):
        sys.stdout = self.o
        self.f.close()


def _where(e):
    tb = e.__traceback__
    best = ""
    while tb is not None:
        co = tb.tb_frame.f_code
        if co.co_filename.startswith(loader.REPO):
            best = f"{co.co_filename[len(loader.REPO) + 1:]}:{tb.tb_lineno} {co.co_name}"
        tb = tb.tb_next
    return best or "harness"
