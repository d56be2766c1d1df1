"""Hypothesis strategies producing JSON-able cases."""
from __future__ import annotations

import math

from hypothesis import strategies as st

import ref

PI = math.pi
SPECIAL = [0.0, PI, -PI, PI / 2, -PI / 2, 2 * PI, 4 * PI, -2 * PI, 3 * PI, PI / 4, 1e-3, -1e-6, 5.0, 1.0]
NAMES = ["a", "b", "a1", "theta", "b_0", "x1", "A"]
MANY = ["p%d" % i for i in range(14)]


def angles():
    return st.one_of(
        st.sampled_from(SPECIAL),
        st.floats(-7, 7, allow_nan=False),
        st.floats(-7, 7, allow_nan=False),
        st.floats(-40, 40, allow_nan=False),
    )


SMOOTH = st.floats(-4, 4, allow_nan=False)
SEED = st.integers(0, 2**31 - 1)


def weighted(*pairs):
    """weighted((value, weight), ...)"""
    pool = [v for v, w in pairs for _ in range(w)]
    return st.sampled_from(pool)


def qubits(draw, n, k):
    perm = draw(st.permutations(range(n)))
    return list(perm[:k])


FORMS = weighted(("int", 6), ("tuple", 4), ("npint", 1), ("nptuple", 1), ("array", 1), ("list", 1), ("nested", 1))


def gate(
    draw,
    n,
    names=NAMES,
    params="both",  # named / numeric / both / none
    max_controls=3,
    noise=False,
    pool=None,
    forms=False,
    target=None,
    control=None,
    control_weight=40,
):
    """One gate on a register of n qubits."""
    if pool is None:
        pool = list(ref.CONST) + list(ref.PARAM) * 3
        if params == "none":
            pool = list(ref.CONST)
    pool = [g for g in pool if g not in ref.TWO or n >= 2]
    if target is not None:
        pool = [g for g in pool if (g in ref.TWO) == (len(target) == 2)] or ["X"]
    name = draw(st.sampled_from(pool))
    k = 2 if name in ref.TWO else 1
    if target is None:
        room = min(max_controls, n - k)
        nc = 0
        if room > 0 and draw(st.integers(0, 99)) < control_weight:
            nc = draw(weighted(*[(i, max(1, 5 - i)) for i in range(1, room + 1)]))
        q = qubits(draw, n, k + nc)
        t, c = q[:k], q[k:]
    else:
        t, c = list(target), list(control or [])
    g = {"g": name, "t": t}
    if c:
        g["c"] = c
    if name in ref.PARAM:
        named = params == "named" or (params == "both" and draw(st.integers(0, 2)) > 0)
        g["p"] = draw(st.sampled_from(names)) if named else draw(angles())
    if noise and k == 1 and draw(st.integers(0, 2)) > 0:
        g["noise"] = draw(noises())
    if forms:
        g["tf"] = draw(FORMS)
        g["cf"] = draw(FORMS)
    return g


DY = st.integers(0, 64).map(lambda k: k / 64)
PROB = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 1e-3, 0.75, 1e-4, 1e-6, 0.999]), DY, st.floats(0, 1, allow_nan=False, allow_subnormal=False))


@st.composite
def pauli_probs(draw):
    # multiples of 1/64: sums are exact, so that a sum of one is not exceeded by rounding
    a = draw(st.integers(0, 64))
    b = draw(st.integers(0, 64 - a))
    c = draw(st.one_of(st.integers(0, 64 - a - b), st.just(64 - a - b)))
    p = [a / 64, b / 64, c / 64]
    if draw(st.integers(0, 5)) == 0:
        p = [draw(st.integers(0, 21)) / 64] * 3
    return draw(st.permutations(p))


@st.composite
def channel(draw):
    kind = draw(
        st.sampled_from(
            [
                "BitFlip",
                "PhaseFlip",
                "Depolarizing",
                "PauliChannel",
                "AmplitudeDamping",
                "PhaseDamping",
                "GeneralizedAmplitudeDamping",
                "GeneralizedAmplitudeDamping",
            ]
        )
    )
    if kind == "PauliChannel":
        return [kind, list(draw(pauli_probs()))]
    if kind == "GeneralizedAmplitudeDamping":
        p = draw(PROB)
        return [kind, [p, p if draw(st.integers(0, 5)) == 0 else draw(PROB)]]
    return [kind, draw(PROB)]


@st.composite
def noises(draw, max_size=5):
    k = draw(weighted((1, 5), (2, 4), (3, 3), (4, 1), (5, 1)))
    out = [draw(channel()) for _ in range(min(k, max_size))]
    if len(out) > 1 and draw(st.integers(0, 3)) == 0:
        # the same channel twice
        i, j = draw(st.integers(0, len(out) - 1)), draw(st.integers(0, len(out) - 1))
        out[j] = out[i]
    return out


def gates(draw, n, lo, hi, **kw):
    """A list of gates, with runs on the same qubits (operations that can be merged)."""
    m = draw(st.integers(lo, hi))
    out = []
    while len(out) < m:
        g = gate(draw, n, **kw)
        out.append(g)
        while len(out) < m and draw(st.integers(0, 3)) == 0:
            g2 = gate(draw, n, target=g["t"], control=g.get("c"), **kw)
            out.append(g2)
        if len(out) < m and draw(st.integers(0, 4)) == 0:
            # an exact copy of the last or of an earlier gate
            out.append(dict(out[-1 if draw(st.booleans()) else draw(st.integers(0, len(out) - 1))]))
    return out


def circuit(draw, n, lo=1, hi=10, nest=0, empty=True, **kw):
    ops = gates(draw, n, lo, hi, **kw)
    if nest and len(ops) > 1 and draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(0, len(ops) - 1))
        j = draw(st.integers(i if empty else i + 1, len(ops)))
        inner = ops[i:j]
        if inner and nest > 1 and len(inner) > 1 and draw(st.booleans()):
            h = draw(st.integers(1, len(inner)))
            inner = [{"k": "seq", "ops": inner[:h]}] + inner[h:]
        kind = draw(st.sampled_from(["seq", "circ"]))
        ops = ops[:i] + [{"k": kind, "n": n, "ops": inner}] + ops[j:]
    return {"k": "circ", "n": n, "ops": ops}


def add_ham(draw, ops, values, n, chance=12, max_controls=2):
    """Sometimes insert Hamiltonian evolutions (operations on several ordered targets) into a list of operations."""
    if draw(st.integers(0, 99)) >= chance:
        return
    k = min(n, draw(weighted((1, 1), (2, 4), (3, 2))))
    for _ in range(draw(weighted((1, 3), (2, 3), (3, 1)))):
        nc = draw(weighted((0, 3), (1, 1), (2, 1)))
        nc = min(nc, n - k, max_controls)
        q = qubits(draw, n, k + nc)
        g = {"g": "HAM", "t": q[:k]}
        if nc:
            g["c"] = q[k:]
        ops.insert(draw(st.integers(0, len(ops))), g)
    values["hamiltonian"] = {"dim": 2**k, "seed": draw(SEED)}
    values["time_evolution"] = draw(st.floats(-1.5, 1.5, allow_nan=False))


def used_names(op, acc=None):
    acc = set() if acc is None else acc
    if "g" in op:
        if isinstance(op.get("p"), str):
            acc.add(op["p"])
        return acc
    if op["k"] == "scale":
        if isinstance(op["by"], str):
            acc.add(op["by"])
        return used_names(op["ops"], acc)
    for o in op["ops"]:
        used_names(o, acc)
    return acc


def values_for(draw, names, extra=False, strat=None):
    names = sorted(names)
    if len(names) > 1:
        names = list(draw(st.permutations(names)))
    vals = {k: draw(angles() if strat is None else strat) for k in names}
    if extra and draw(st.integers(0, 4)) == 0:
        # a value nothing uses here, possibly with an ordinary name
        other = draw(st.sampled_from(["unused"] + [x for x in NAMES if x not in vals]))
        vals[other] = draw(angles() if strat is None else strat)
        if draw(st.booleans()):
            vals = dict(reversed(list(vals.items())))
    return vals


def pure(draw, n):
    kind = draw(weighted(("haar", 12), ("basis", 2), ("zero", 1), ("uniform", 1), ("ghz", 1)))
    s = {"n": n, "kind": kind}
    if kind == "haar":
        s["seed"] = draw(SEED)
    if kind == "basis":
        s["index"] = draw(st.integers(0, 2**n - 1))
    return s


def density(draw, n):
    kind = draw(weighted(("dm", 8), ("dmpure", 3), ("mixed", 1)))
    s = {"n": n, "kind": kind}
    if kind == "dm":
        s["seed"] = draw(SEED)
        s["rank"] = draw(st.integers(1, min(8, 2**n)))
    if kind == "dmpure":
        s["of"] = pure(draw, n)
    return s


def anystate(draw, n, dm=40):
    return density(draw, n) if draw(st.integers(0, 99)) < dm else pure(draw, n)


HERM = ["X", "Y", "Z", "H", "I", "SWAP"]


def hermitian_term(draw, n, max_k=3, names=None, controlled=True):
    """A hermitian operator: gate, product of gates on distinct qubits, possibly scaled."""
    r = draw(st.integers(0, 9))
    k = draw(st.integers(1, min(max_k, n)))
    q = qubits(draw, n, k)
    if r < 3 or k == 1:
        if controlled and k >= 2 and draw(st.booleans()):
            t = {"g": draw(st.sampled_from(["X", "Y", "Z", "H"])), "t": q[:1], "c": q[1:]}
        elif k >= 2 and draw(st.booleans()):
            t = {"g": "SWAP", "t": q[:2]}
        else:
            t = {"g": draw(st.sampled_from(["X", "Y", "Z", "Z", "H", "I"])), "t": q[:1]}
    else:
        t = {"k": "seq", "ops": [{"g": draw(st.sampled_from(["X", "Y", "Z", "Z"])), "t": [x]} for x in q]}
    if draw(st.integers(0, 9)) < 4:
        if names and draw(st.booleans()):
            by = draw(st.sampled_from(names))
        else:
            by = draw(st.floats(-3, 3, allow_nan=False))
        t = {"k": "scale", "by": by, "ops": t}
    return t


def rescaled(draw, t, names=None):
    by = draw(st.sampled_from(names)) if names and draw(st.integers(0, 3)) == 0 else draw(st.floats(-3, 3, allow_nan=False))
    return {"k": "scale", "by": by, "ops": t["ops"] if t.get("k") == "scale" else t}


def observable(draw, n, max_terms=3, names=None, **kw):
    m = draw(st.integers(1, max_terms))
    if max_terms >= 3 and draw(st.integers(0, 7)) == 0:
        m += draw(st.integers(1, 4))
    ops = [hermitian_term(draw, n, names=names, **kw) for _ in range(m)]
    if m > 1 and draw(st.integers(0, 4)) == 0:
        ops[draw(st.integers(0, m - 1))] = ops[draw(st.integers(0, m - 1))]
    if draw(st.integers(0, 7)) == 0:
        # one term again with another coefficient
        ops.append(rescaled(draw, ops[draw(st.integers(0, m - 1))], names))
    if draw(st.integers(0, 9)) == 0:
        by = draw(st.floats(-2, 2, allow_nan=False))
        ops = [{"k": "scale", "by": by, "ops": {"k": "add", "ops": ops}}]
    return {"k": "obs", "ops": ops}


def observables(draw, n, lo=1, hi=3, **kw):
    out = [observable(draw, n, **kw) for _ in range(draw(st.integers(lo, hi)))]
    if len(out) > 1 and draw(st.integers(0, 5)) == 0:
        out[draw(st.integers(0, len(out) - 1))] = out[draw(st.integers(0, len(out) - 1))]
    if len(out) > 1 and draw(st.integers(0, 5)) == 0:
        # the same operations with another coefficient
        i, j = draw(st.permutations(range(len(out))))[:2]
        t = out[i]["ops"][0]
        out[j] = {"k": "obs", "ops": [rescaled(draw, t, kw.get("names"))] + out[i]["ops"][1:]}
    return out


def size(draw, lo, hi):
    """Register size: mostly small, but the largest sizes stay well represented."""
    return draw(weighted(*[(i, 3 if i < hi else 2) for i in range(lo, hi + 1)]))


VFORM = weighted(("float", 8), ("jnp", 4), ("np", 2), ("int", 2), ("vec", 1))
