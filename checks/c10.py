"""C10: gradients of exact expectation values under automatic and adjoint differentiation."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.operator_utils import DiffMode

RESPELL = True
EXAMPLES = {"quick": 560, "thorough": 8000}
RULE = (
    "circuits of 1-20 gates on 1-4 qubits with up to 14 named angles (repeated, controlled, PHASE), fixed angles, optional "
    "noise and density matrices, 1-6 observables with named coefficients, unused values; gradient, jacobian "
    "(forward and reverse), jvp and hessian in AD and adjoint mode, compared with the exact derivative from the "
    "reference (product rule; the hessian with central differences of it). Non-trivial: a gradient with a non-zero "
    "component and at least two gates"
)
ASSUMPTIONS = ["hermitian observables", "adjoint mode: noiseless circuits on state vectors"]


@st.composite
def case_(draw, tier, noisy_ok=True, pool=None, obs_names=True, control_weight=35, max_gates=8, max_n=4):
    # every new layout of qubits compiles new derivative kernels: few layouts, many circuits
    n = min(max_n, draw(gen.weighted((1, 1), (2, 5), (3, 3), (4, 1))))
    names = gen.NAMES[: draw(st.integers(1, 4))]
    noisy = noisy_ok and draw(st.integers(0, 5)) == 0
    dm = noisy_ok and draw(st.integers(0, 5)) == 0
    if noisy or dm:
        n = min(n, 3)
    kw = {"pool": pool} if pool else {}
    lo = 1
    if draw(st.integers(0, 24)) == 0:
        # many parameters (names whose order as strings is not their order as numbers)
        names, lo, max_gates, n = gen.MANY, 10, 20, min(n, 3)
    c = gen.circuit(
        draw, n, lo, draw(gen.weighted((3, 2 if lo == 1 else 0), (max_gates, 3))), nest=1, names=names, noise=noisy,
        control_weight=control_weight, max_controls=2, **kw,
    )
    if not gen.used_names(c):
        c["ops"].append({"g": draw(st.sampled_from(ref.PARAM)), "t": [draw(st.integers(0, n - 1))], "p": names[0]})
    if draw(st.integers(0, 6)) == 0:
        # one name for every angle
        for g in ref.flat(c):
            if g["g"] in ref.PARAM and draw(st.integers(0, 5)):
                g["p"] = names[0]
    obs = gen.observables(draw, n, 1, draw(gen.weighted((3, 9), (6, 1))), names=(["w", "a"] if obs_names else None))
    used = gen.used_names(c)
    for o in obs:
        gen.used_names(o, used)
    return {
        "n": n,
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "circuit": c,
        "obs": obs,
        "values": gen.values_for(draw, used, extra=True, strat=st.one_of(gen.SMOOTH, gen.angles())),
        "weights": [draw(st.sampled_from([1.0, 1.0, -1.0, 0.5, 2.0])) for _ in obs],
    }


@st.composite
def _case(draw, tier):
    c = draw(case_(tier))
    pure = not ref.is_dm(c["state"]) and not ref.has_noise(c["circuit"])
    c["mode"] = draw(st.sampled_from(["ad", "ad", "adjoint"] if pure else ["ad"]))
    c["how"] = draw(gen.weighted(("grad", 4), ("jacrev", 2), ("jacfwd", 2), ("jvp", 2), ("hessian", 1 if len(c["values"]) < 7 else 0)))
    return c


strategy = _case


def nontrivial(c):
    return len(ref.flat(c["circuit"])) >= 2 and bool(gen.used_names(c["circuit"]))


def repeated(c):
    names = [g["p"] for g in ref.flat(c["circuit"]) if isinstance(g.get("p"), str)]
    return len(names) > len(set(names))


def labels(c):
    out = ["mode=" + c["mode"], "how=" + c["how"], f"n={c['n']}", f"parameters={len(c['values'])}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    if repeated(c):
        out.append("repeated parameter")
    if any(g["g"] in ref.PARAM and g.get("c") and isinstance(g["p"], str) for g in ref.flat(c["circuit"])):
        out.append("controlled parametric")
    return out


def exact(c, values=None):
    """(names, dE/dname of shape (names, observables))"""
    values = c["values"] if values is None else values
    names = list(c["values"])
    g = ref.grad(c["state"], c["circuit"], c["obs"], values, names)
    obs_names = set()
    for o in c["obs"]:
        gen.used_names(o, obs_names)
    ix = [i for i, k in enumerate(names) if k in obs_names]
    if ix:
        og = ref.obs_grad(c["state"], c["circuit"], c["obs"], values, [names[i] for i in ix])
        for j, i in enumerate(ix):
            g[i] += og[j]
    return names, g


def tree(names, out, what):
    """rows of a gradient returned as a dict"""
    B.need(isinstance(out, dict) and set(out) == set(names), f"{what}: not a dict over the parameters")
    return np.stack([B.asarr(out[k]) for k in names])


def run(c):
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s = B.state(c["state"])
    w = np.array(c["weights"])
    mode = DiffMode(c["mode"])

    def f(v):
        return horqrux.expectation(s, circ, obs, v, diff_mode=mode)

    names, want = exact(c)
    v = {k: jnp.asarray(x) for k, x in c["values"].items()}
    what = f"{c['how']} in mode {c['mode']}"
    compare(c, f, v, names, want, w, what, lambda vv: exact(c, vv)[1])


def compare(c, f, v, names, want, w, what, gradfn, atol=1e-7):
    how = c["how"]
    if how == "grad":
        out = B.sut(jax.grad(lambda v: jnp.sum(jnp.asarray(w) * f(v))), v)
        B.same(tree(names, out, what), want @ w, what, atol)
    elif how in ("jacrev", "jacfwd"):
        out = B.sut(getattr(jax, how)(f), v)
        B.same(tree(names, out, what), want, what, atol)
    elif how == "jvp":
        t = {k: jnp.asarray(0.3 + 0.7 * i) for i, k in enumerate(names)}
        val, out = B.sut(jax.jvp, f, (v,), (t,))
        B.same(out, sum((0.3 + 0.7 * i) * want[i] for i in range(len(names))), what, atol)
        dens, arr = ref.evolve(c["state"], c["circuit"], c["values"])
        B.same(val, np.array([ref.expval(dens, arr, o, c["values"]) for o in c["obs"]]), "value of the jvp", atol)
    else:
        out = B.sut(jax.hessian(lambda v: jnp.sum(jnp.asarray(w) * f(v))), v)
        B.need(isinstance(out, dict) and set(out) == set(names), f"{what}: not a dict over the parameters")
        got = np.stack([tree(names, out[k], what) for k in names])
        h = 1e-4
        hess = []
        for k in names:
            up, dn = dict(c["values"]), dict(c["values"])
            up[k] += h
            dn[k] -= h
            hess.append((gradfn(up) - gradfn(dn)) @ w / (2 * h))
        B.same(got, np.array(hess), what, 2e-5, 2e-5)
