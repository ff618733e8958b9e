"""Independent evaluation of tabulated and descriptor-based Gibbs energies from the raw data files."""

from __future__ import annotations

import math
from itertools import combinations

from monty.serialization import loadfn
from pymatgen.core.composition import Composition

BASE = "/repo/src/rxn_network/data/"
G = {float(k): v for k, v in loadfn(BASE + "mu_elements.json").items()}
TAB = {"nist": loadfn(BASE + "nist/compounds.json.gz"), "freed": loadfn(BASE + "freed/compounds.json.gz")}


def interp(tab, t):
    ks = sorted(float(k) for k in tab)
    tab = {float(k): v for k, v in tab.items()}
    for a, b in zip(ks, ks[1:]):
        if a <= t <= b:
            return tab[a] + (tab[b] - tab[a]) * (t - a) / (b - a)
    raise KeyError(t)


def sisso(formula, fpa, vol, t):
    comp = Composition(formula)
    n = comp.num_atoms
    if len(comp) == 1:
        return n * fpa
    red = comp.reduced_composition
    pairs = 0.0
    for (a, x), (b, y) in combinations(red.items(), 2):
        ma, mb = float(a.atomic_mass), float(b.atomic_mass)
        pairs += (x + y) * ma * mb / (ma + mb)
    m = pairs / ((len(red) - 1) * red.num_atoms)
    g = (-2.48e-4 * math.log(vol) - 8.94e-5 * m / vol) * t + 0.181 * math.log(t) - 0.882
    el = sum(x * interp({k: v[str(e)] for k, v in G.items()}, t) for e, x in comp.items())
    return n * fpa + n * g - el
