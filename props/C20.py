"""Wavelength and photon energy; the colour of a wavelength."""
from props.h import *

ASSUMES = ["x**gamma for fractional gamma is any increasing function with 0 -> 0 and 1 -> 1 (gamma 1 and 2 are exact)"]


def energy(env):
    g = env.m.general
    w = env.real("nm", 1, 1e6)
    e = g.wavelength_nm_to_energy_eV(w)
    env.observe("eV", e)
    env.eq(g.energy_eV_to_wavelength_nm(e), w, "energy to wavelength undoes wavelength to energy", tol=1e-5)
    env.eq(g.wavelength_nm_to_energy_eV(g.energy_eV_to_wavelength_nm(w)), w, "and the other way round", tol=1e-5)
    env.true(env.AND(e * w >= 1239.8, e * w <= 1239.9), "E lambda = hc = 1239.84 eV nm")
    w2 = env.real("nm2", 1, 1e6)
    env.require(w2 >= w + 1e-3)
    env.true(g.wavelength_nm_to_energy_eV(w2) < e, "longer waves carry less energy")


def bands(w):
    """channel ramps of the Bruton map before gamma: (lo, hi, R, G, B) as functions of w"""
    one, zero = (lambda w: 1), (lambda w: 0)
    at = lambda w: 0.3 + 0.7 * (w - 380) / 60
    return [(380, 440, lambda w: (440 - w) / 60 * at(w), zero, at),
            (440, 490, zero, lambda w: (w - 440) / 50, one),
            (490, 510, zero, one, lambda w: (510 - w) / 20),
            (510, 580, lambda w: (w - 510) / 70, one, zero),
            (580, 645, one, lambda w: (645 - w) / 65, zero),
            (645, 750, lambda w: 0.3 + 0.7 * (750 - w) / 105, zero, zero)]


def gamut(env):
    g = env.m.general
    gm = env.p.gamma
    w = env.real("nm", -100, 2000)
    c = g.wavelength_to_rgb(w, gamma=gm) if gm else g.wavelength_to_rgb(w)
    env.true(len(c) == 3, "three channels")
    for i, x in enumerate(c):
        env.observe(f"c{i}", x)
        env.le(0, x, "channels are at least 0", tol=1e-9)
        env.le(x, 1, "channels are at most 1", tol=1e-9)
    if gm in (1, 2):
        for lo, hi, *ch in bands(w):
            if lo <= 380:
                cond = w < hi
            elif hi >= 750:
                cond = w >= lo
            else:
                cond = env.AND(w >= lo, w < hi)
            if env.decide(cond):
                wc = w
                if env.decide(w < 380):
                    wc = 380
                elif env.decide(w > 750):
                    wc = 750
                for x, f in zip(c, ch):
                    v = f(wc)
                    env.eq(x, v if gm == 1 else v * v, "the spectral ramp of the wavelength")
                return


def order(env):
    """along the spectrum: no jump, red only grows towards red within 490..645, blue fades"""
    g = env.m.general
    w = env.real("nm", 381, 749)
    h = env.real("h", 1e-9, 1e-6)
    a, b = g.wavelength_to_rgb(w, gamma=1), g.wavelength_to_rgb(w + h, gamma=1)
    for i in range(3):
        df = b[i] - a[i]
        env.true(env.AND(df <= 0.1 * h, df >= -0.1 * h), "no jump anywhere in the visible range")


def custom(env):
    """floor and ceiling clamp"""
    g = env.m.general
    lo, hi = env.real("floor", 300, 500), env.real("ceiling", 600, 800)
    w = env.real("nm", -100, 2000)
    c = g.wavelength_to_rgb(w, gamma=1, floor_wave=lo, ceiling_wave=hi)
    wc = lo if env.decide(w < lo) else hi if env.decide(w > hi) else w
    d = g.wavelength_to_rgb(wc, gamma=1, floor_wave=300, ceiling_wave=800)
    for x, y in zip(c, d):
        env.eq(x, y, "wavelengths outside floor..ceiling take the colour at the limit")
        env.le(0, x, "channels are at least 0")
        env.le(x, 1, "channels are at most 1")


def goals(tier):
    b = "any wavelength -100..2000 nm"
    out = [Goal("energy", energy, bounds="1..1e6 nm or eV"),
           Goal("no jumps", order, bounds="381..749 nm, steps up to 1e-6 nm"),
           Goal("floor and ceiling", custom, bounds=b + ", floor 300..500, ceiling 600..800")]
    for gm in (None, 1, 2, 0.5):
        out.append(Goal(f"gamut, gamma {gm or 'default'}", gamut, dict(gamma=gm), bounds=b))
    return out
