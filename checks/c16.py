"""C16: jit and vmap do not change results."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.operator_utils import DensityMatrix, DiffMode

RESPELL = True
EXAMPLES = {"quick": 480, "thorough": 6000}
RULE = (
    "run and expectation (AD, adjoint, GPSR, fixed-key shots) on circuits of 1-6 gates on 1-4 qubits, pure, mixed and "
    "noisy, under jit (over values, over the state, with the circuit and the observables as arguments), vmap over a "
    "batch of values and/or states, jit of vmap, lax.map, and gradients under jit; every batch element is compared "
    "with the eager NumPy reference (shots: with the untransformed call). Non-trivial: a named parameter or a batch "
    "of distinct states, and two gates"
)
ASSUMPTIONS = ["values of a batch have the same names", "adjoint mode: state vectors without noise"]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 1), (2, 4), (3, 3), (4, 1)))
    names = gen.NAMES[:3]
    noisy = draw(st.integers(0, 5)) == 0
    dm = draw(st.integers(0, 4)) == 0
    if noisy or dm:
        n = min(n, 3)
    what = draw(gen.weighted(("run", 4), ("expect", 4), ("grad", 2), ("shots", 1)))
    c = gen.circuit(draw, n, 1, draw(gen.weighted((3, 2), (6, 2))), nest=2, names=names, noise=noisy, max_controls=2)
    used = gen.used_names(c)
    out = {"n": n, "what": what, "circuit": c}
    if what != "run":
        out["obs"] = gen.observables(draw, n, 1, 2, names=names if what != "grad" else None, max_terms=2)
        for o in out["obs"]:
            gen.used_names(o, used)
        modes = ["ad", "ad", "gpsr"] + ([] if noisy or dm else ["adjoint"])
        out["mode"] = draw(st.sampled_from(modes))
        if what == "shots":
            out["mode"] = draw(st.sampled_from(["ad", "gpsr"]))
            out["key"] = draw(gen.SEED)
        if what == "grad" and out["mode"] == "gpsr":
            # named angles of controlled rotations: known finding of C11
            from c11 import _uncontrol

            _uncontrol(c)
    if what == "grad" and not gen.used_names(c):
        c["ops"].append({"g": draw(st.sampled_from(ref.PARAM)), "t": [draw(st.integers(0, n - 1))], "p": names[0]})
        gen.used_names(c, used)
    out["how"] = draw(
        gen.weighted(
            ("jit values", 3), ("jit all", 3), ("vmap values", 4), ("vmap states", 2), ("vmap both", 2), ("jit vmap", 2), ("map", 1)
        )
    )
    b = 1 if out["how"].startswith("jit") and out["how"] != "jit vmap" else draw(gen.weighted((1, 2), (2, 3), (3, 3), (4, 3), (9, 1)))
    if out["how"] == "vmap values" and not used:
        out["how"] = "vmap states"
    out["states"] = []
    base = gen.density(draw, n) if dm else gen.pure(draw, n)
    for i in range(b):
        s = dict(base)
        if i and s["kind"] in ("dm", "haar"):
            s["seed"] = draw(gen.SEED)
        elif i:
            s = {"n": n, "kind": "dm", "rank": 2, "seed": draw(gen.SEED)} if dm else {"n": n, "kind": "haar", "seed": draw(gen.SEED)}
        out["states"].append(s)
    out["values"] = [gen.values_for(draw, used, strat=gen.SMOOTH) for _ in range(b)]
    return out


strategy = _case


def nontrivial(c):
    return len(ref.flat(c["circuit"])) >= 2 and (bool(c["values"][0]) or len(c["states"]) > 1)


def labels(c):
    out = ["what=" + c["what"], "how=" + c["how"], f"n={c['n']}"]
    if "mode" in c:
        out.append("mode=" + c["mode"])
    out.append("density matrix" if ref.is_dm(c["states"][0]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    return out


def stack(xs):
    return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *xs)


def run(c):
    names = sorted(c["values"][0])
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c.get("obs", [])]
    states = [B.state(s) for s in c["states"]]
    values = [{k: jnp.asarray(v[k]) for k in names} for v in c["values"]]
    b = len(states)
    how, what = c["how"], c["what"]
    kw = {}
    if what != "run":
        kw["diff_mode"] = DiffMode(c["mode"])
    if what == "shots":
        kw.update(n_shots=20, key=B.key(c["key"]))

    def f(ci, ob, s, v):
        if what == "run":
            return horqrux.run(ci, s, v)
        if what == "grad":
            return jax.grad(lambda v: jnp.sum(horqrux.expectation(s, ci, ob, v, **kw)))(v)
        return horqrux.expectation(s, ci, ob, v, **kw)

    g = lambda s, v: f(circ, obs, s, v)
    svals = [0] * b if how == "vmap states" else range(b)
    sstates = [0] * b if how in ("vmap values", "jit vmap") else range(b)
    pairs = list(zip(sstates, svals))

    def go():
        if how == "jit values":
            return [jax.jit(lambda v: f(circ, obs, states[0], v))(values[0])]
        if how == "jit all":
            j = jax.jit(f)
            first = j(circ, obs, states[0], values[0])
            return [first]
        if how in ("vmap values", "jit vmap"):
            h = jax.vmap(lambda v: g(states[0], v))
            if how == "jit vmap":
                if not names:
                    return [jax.jit(g)(states[0], values[0])] * b
                h = jax.jit(h)
            out = h(stack(values))
        elif how == "vmap states":
            out = jax.vmap(lambda s: g(s, values[0]))(stack(states))
        elif how == "vmap both":
            out = jax.vmap(g)(stack(states), stack(values))
        else:
            out = jax.lax.map(lambda sv: g(*sv), (stack(states), stack(values)))
        return [jax.tree_util.tree_map(lambda a: a[i], out) for i in range(b)]

    got = B.sut(go)
    for i, (a, d) in enumerate(pairs):
        spec, vals = c["states"][a], c["values"][d]
        w = f"{what} under {how}, element {i}"
        if what == "run":
            dens, want = ref.evolve(spec, c["circuit"], vals)
            B.need(isinstance(got[i], DensityMatrix) == dens, lambda: f"{w}: wrong kind of state")
            B.same(B.array(got[i]), want, w, 1e-8)
        elif what == "expect":
            dens, arr = ref.evolve(spec, c["circuit"], vals)
            B.same(got[i], np.array([ref.expval(dens, arr, o, vals) for o in c["obs"]]), w, 1e-8)
        elif what == "grad":
            want = ref.grad(spec, c["circuit"], c["obs"], vals, names).sum(axis=1)
            B.need(set(got[i]) == set(names), lambda: f"{w}: wrong names")
            B.same(np.array([B.asarr(got[i][k]) for k in names]), want, w, 1e-7)
        else:
            want = B.asarr(B.sut(g, states[a], values[d]))
            # the same key draws the same shots, unless a probability moves by an ulp
            gi = B.asarr(got[i])
            B.need(gi.shape == want.shape and np.all(np.isfinite(gi)), lambda: f"{w}: {gi}")
            from c12 import _exact

            import stats

            for j, o in enumerate(c["obs"]):
                ev = stats.spectrum(o, c["n"], vals)
                tol = 1e-8 + 2.0 * (ev[-1] - ev[0]) / 20
                B.need(abs(gi[j] - want[j]) <= tol, lambda: f"{w}: {gi[j]} instead of {want[j]} with the same key")
