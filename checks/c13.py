"""C13: finite-shot parameter-shift gradients estimate the exact gradient."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
import stats
from c10 import case_, repeated
from c11 import _uncontrol
from horqrux.differentiation.gpsr import finite_shots_gpsr_backward
from horqrux.utils.operator_utils import DiffMode

import json
import math

RESPELL = True
EXAMPLES = {"quick": 160, "thorough": 5000}
RULE = (
    "1-9 gates as C11 (named uncontrolled rotations, PHASE with controls, repeated and unused parameters, pure/mixed/noisy), "
    "5000-400000 shots and a random key; gradient, jacobian and jvp of the finite-shot GPSR mode and the finite-shot "
    "backward function stay within a Bernstein bound (failure probability 1e-12) of the exact gradient, and the same "
    "key gives the same gradient; over 300 keys, the mean of the gradient is within the bound of all shots together and "
    "its variance does not exceed that of independent shifted estimates. Non-trivial: some component of the gradient exceeds its bound"
)
ASSUMPTIONS = ["hermitian observables", "as C11"]


@st.composite
def _case(draw, tier):
    c = draw(
        case_(
            tier,
            pool=["X", "H", "S"] + ["RX", "RY", "RZ", "PHASE"] * 4,
            obs_names=False,
            control_weight=30,
            max_gates=draw(gen.weighted((4, 3), (9, 1))),
            max_n=3,
        )
    )
    if draw(st.integers(0, 4)) == 0:
        # many uses of one angle, with a large derivative
        n = c["n"] = draw(st.integers(1, 2))
        axis, p = draw(st.sampled_from(["RX", "RY"])), gen.NAMES[0]
        m = draw(st.integers(3, 8))
        ops = [{"g": axis, "t": [draw(st.integers(0, n - 1))], "p": p} for _ in range(m)]
        if draw(st.booleans()):
            ops.insert(draw(st.integers(0, m)), {"g": "RZ", "t": [0], "p": gen.NAMES[1]})
        c["state"] = {"n": n, "kind": "zero"}
        c["circuit"] = {"k": "circ", "n": n, "ops": ops}
        c["obs"] = [{"k": "obs", "ops": [{"g": "Z", "t": [q]} for q in range(n)]}]
        c["values"] = gen.values_for(draw, gen.used_names(c["circuit"]), extra=True, strat=gen.SMOOTH)
    _uncontrol(c["circuit"])
    c["how"] = draw(gen.weighted(("grad", 3), ("bwd", 4), ("jacfwd", 1), ("jvp", 1), ("spread-bwd", 2), ("spread-jacfwd", 1)))
    c["shots"] = draw(st.sampled_from([5000, 40000, 400000, 400000]))
    if c["how"].startswith("spread"):
        c["shots"] = draw(st.sampled_from([20, 100, 500]))
        c["obs"] = c["obs"][:1]
    c["key"] = draw(gen.SEED)
    c["weights"] = [1.0] * len(c["obs"])
    c["repeat"] = draw(st.integers(0, 3)) == 0
    return c


K = 300
strategy = _case


_memo = {}


def analysis(c):
    key = json.dumps(c, sort_keys=True)
    if key not in _memo:
        _memo.clear()
        _memo[key] = _analysis(c)
    return _memo[key]


def _analysis(c):
    """exact gradient, bound and variance of an estimate, all (names, observables)"""
    spread = c["how"].startswith("spread")
    N = c["shots"] * (K if spread else 1)
    names = list(c["values"])
    gates = ref.flat(c["circuit"])
    want = ref.grad(c["state"], c["circuit"], c["obs"], c["values"], names)
    bound = np.full(want.shape, 1e-7)
    varest = np.zeros(want.shape)
    spec = [stats.spectrum(o, c["n"], c["values"]) for o in c["obs"]]
    for a, name in enumerate(names):
        occ = [i for i, g in enumerate(gates) if g["g"] in ref.PARAM and g["p"] == name]
        # an unused parameter may be estimated as the difference of two estimates
        for i in occ or [None]:
            for sgn in (1, -1):
                gs = list(gates)
                if i is not None:
                    gs[i] = {**gs[i], "p": c["values"][name] + sgn * math.pi / 2}
                dens, arr = ref.evolve(c["state"], {"k": "circ", "ops": gs}, c["values"])
                for b, o in enumerate(c["obs"]):
                    _, var = stats.moments(dens, arr, o, c["values"])
                    bound[a, b] += 0.5 * stats.bernstein(var, spec[b][-1] - spec[b][0], N)
                    varest[a, b] += 0.25 * var / c["shots"]
    return names, want, bound, varest, [e[-1] - e[0] for e in spec]


def nontrivial(c):
    _, want, bound = analysis(c)[:3]
    return bool(np.any(np.abs(want) > bound))


def labels(c):
    out = ["how=" + c["how"], f"shots={c['shots']}", f"parameters={len(c['values'])}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    if repeated(c):
        out.append("repeated parameter")
    if "unused" in c["values"]:
        out.append("unused value")
    return out


def run(c):
    names, want, bound, varest, widths = analysis(c)
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s = B.state(c["state"])
    v = B.values(c["values"], "jnp")
    how = c["how"]

    def f(v, key):
        return horqrux.expectation(s, circ, obs, v, diff_mode=DiffMode.GPSR, n_shots=c["shots"], key=key)

    def rows(out):
        B.need(isinstance(out, dict) and set(out) == set(names), "not a dict over the parameters")
        return np.stack([B.asarr(out[k]) for k in names])

    def go():
        key = B.key(c["key"])
        if how == "bwd":
            gates = [B.op(g) for g in ref.flat(c["circuit"])]
            return B.asarr(B.sut(finite_shots_gpsr_backward, s, gates, obs, v, c["shots"], key))
        if how == "grad":
            return rows(B.sut(jax.grad(lambda v: jnp.sum(f(v, key))), v))
        if how == "jacfwd":
            return rows(B.sut(jax.jacfwd(lambda v: f(v, key)), v))
        t = {k: jnp.asarray(1.0 + i) for i, k in enumerate(names)}
        return B.asarr(B.sut(jax.jvp, lambda v: f(v, key), (v,), (t,))[1])

    if how.startswith("spread"):
        gates = [B.op(g) for g in ref.flat(c["circuit"])]

        def one(key):
            if how == "spread-bwd":
                return finite_shots_gpsr_backward(s, gates, obs, v, c["shots"], key)
            j = jax.jacfwd(lambda v: f(v, key))(v)
            return jnp.stack([j[k][0] for k in names])

        est = B.asarr(B.sut(jax.vmap(one), jax.random.split(B.key(c["key"]), K)))
        B.need(est.shape == (K, len(names)), lambda: f"shape {est.shape}")
        for a, name in enumerate(names):
            dev = abs(est[:, a].mean() - want[a, 0])
            B.need(dev <= bound[a, 0], lambda: f"mean over {K} keys of the derivative in {name} is off by {dev}")
            if varest[a, 0] * c["shots"] > 0.02 * widths[0] ** 2 and widths[0] > 1e-6:
                r = est[:, a].var(ddof=1) / varest[a, 0]
                B.need(r < 1.8, lambda: f"variance over {K} keys of the derivative in {name}: {r:.2f} of the shot noise")
        # different names are estimated from different samples
        wide = [a for a in range(len(names)) if varest[a, 0] * c["shots"] > 0.02 * widths[0] ** 2 and widths[0] > 1e-6]
        if len(wide) > 1:
            r = np.abs(np.corrcoef(est[:, wide].T) - np.eye(len(wide))).max()
            B.need(r < 0.5, lambda: f"the errors of two derivatives have correlation {r:.2f} over {K} keys")
        return
    got = go()
    if how in ("bwd", "grad"):
        want, bound = want.sum(axis=1), bound.sum(axis=1)
    elif how == "jvp":
        co = 1.0 + np.arange(len(names))
        want, bound = co @ want, co @ bound
    B.need(got.shape == want.shape, lambda: f"shape {got.shape} instead of {want.shape}")
    B.need(np.all(np.isfinite(got)), "not finite")
    off = np.abs(got - want) - bound
    B.need(
        np.all(off <= 0),
        lambda: f"{how} with {c['shots']} shots: {got.tolist()} for {want.tolist()}, bound {bound.tolist()}",
    )
    if c["repeat"]:
        B.need(np.array_equal(got, go()), "the same key gives a different gradient")
