"""Quantum concentration and the entropy of an ideal gas."""
import math

from props.h import *

ASSUMES = ["logarithms are known by the laws of products and powers, their order and log 1 = 0"]
ME = 9.1093837e-28          # electron mass, g
MP = 1.67262192e-24
H, EV, KB = 6.62607015e-27, 1.602176634e-12, 1.380649e-16       # erg s, erg/eV, erg/K


def near(env, r, label, tol=1e-5):
    env.true(env.AND(r >= 1 - tol, r <= 1 + tol), label)


def nq(env):
    g = env.m.general
    T = env.real("T", 1e-3, 1e5)
    mu = env.real("m", 0.01, 1e5)                       # in electron masses
    n = g.get_nQ(T, mu * ME)
    env.observe("log", env.log(n))
    ref = 2 * math.pi * mu * ME * EV * T / H ** 2       # nQ = (2 pi m kT / h^2)^(3/2)
    near(env, n / ref * n / ref / ref, "nQ^2 = (2 pi m kT / h^2)^3")
    env.lt(0, n, "positive")
    n0 = g.get_nQ(T)
    near(env, n0 / g.get_nQ(T, ME), "electrons by default")
    k = env.real("k", 1.01, 10)
    near(env, g.get_nQ(k * k * T, mu * ME) / n / (k * k * k), "grows as T^(3/2)")
    near(env, g.get_nQ(T, k * k * mu * ME) / n / (k * k * k), "and as m^(3/2)")


def entropy(env):
    """S = N k (5/2 + log(nQ/n)), with every dependence on its own"""
    g = env.m.general
    T = env.real("T", 1e-2, 1e4)
    mu = env.real("m", 1, 1e3)                          # in proton masses
    n = env.real("n", 1, 1e20)
    V = env.real("V", 1e-3, 1e3)
    k = env.real("k", 1.01, 10)
    m = mu * MP
    S = lambda n, m, V, T: g.sackurTetrode(n, m, V, T) / KB / V / n      # per particle
    s = S(n, m, V, T)
    env.observe("s", s)
    ref = 2.5 + env.log(g.get_nQ(T, m) / n)
    env.true(env.AND(s - ref <= 1e-4 * (1 + ref * ref), ref - s <= 1e-4 * (1 + ref * ref)), "5/2 + log(nQ/n) per particle")
    case = env.choose(4, "case")
    L = env.log(k)
    if case == 0:
        env.eq(S(n, m, k * V, T), s, "proportional to the volume", tol=1e-4)
    elif case == 1:
        env.eq(S(k * n, m, V, T), s - L, "thinner gas has more entropy per particle", tol=1e-4)
    elif case == 2:
        env.eq(S(n, m, V, k * T), s + 1.5 * L, "heating by k adds 3/2 log k", tol=1e-4)
    else:
        env.eq(S(n, k * m, V, T), s + 1.5 * L, "heavier particles have more", tol=1e-4)


def goals(tier):
    b = "T 1e-3..1e5 eV, mass 0.01..1e5 electron masses"
    return [Goal("quantum concentration", nq, bounds=b),
            Goal("entropy", entropy, bounds="T 0.01..1e4 eV, mass 1..1000 protons, density 1..1e20, volume 1e-3..1e3")]
