"""C25: separate values for circuit and observables are kept apart, in values and in gradients."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
import stats
from horqrux.utils.operator_utils import DiffMode

RESPELL = True
EXAMPLES = {"quick": 900, "thorough": 12000}
RULE = (
    "circuits and observables whose parameters share names, with different values for the circuit and for the "
    "observables (in separate dictionaries) or one common dictionary; exact expectation values in AD, adjoint and GPSR "
    "mode, finite-shot estimates, names missing on one side, gradients in AD and adjoint mode (each part receives only its own derivative; the "
    "common dictionary receives the sum), pure, mixed and noisy evolution. Non-trivial: a name used on both sides with "
    "different values"
)
ASSUMPTIONS = [
    "gradients of separate values in AD and adjoint mode (GPSR differentiates circuit parameters of a common dictionary)",
    "adjoint mode: state vectors without noise",
]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 1), (2, 4), (3, 2)))
    names = gen.NAMES[:2]
    noisy = draw(st.integers(0, 4)) == 0
    dm = draw(st.integers(0, 4)) == 0
    what = draw(gen.weighted(("value", 6), ("shots", 2), ("grad", 3), ("common", 2), ("missing", 1)))
    c = gen.circuit(draw, n, 1, draw(st.sampled_from([2, 5])), nest=1, names=names, noise=noisy, max_controls=1)
    if not gen.used_names(c):
        c["ops"].append({"g": draw(st.sampled_from(["RX", "RY", "PHASE"])), "t": [draw(st.integers(0, n - 1))], "p": names[0]})
    obs = gen.observables(draw, n, 1, 2, max_terms=2, names=names)
    if not any(gen.used_names(o) for o in obs):
        by = draw(st.sampled_from(sorted(gen.used_names(c))))
        obs[0]["ops"].append({"k": "scale", "by": by, "ops": {"g": draw(st.sampled_from(["X", "Z", "Y"])), "t": [draw(st.integers(0, n - 1))]}})
    uo = set()
    for o in obs:
        gen.used_names(o, uo)
    modes = ["ad", "ad"] + ([] if noisy or dm else ["adjoint", "adjoint"]) + (["gpsr"] if what == "value" else [])
    if what == "shots":
        modes = ["ad", "gpsr"]
    vc = gen.values_for(draw, gen.used_names(c), extra=True, strat=gen.SMOOTH)
    vo = gen.values_for(draw, uo, extra=True, strat=gen.SMOOTH)
    return {
        "n": n, "what": what, "circuit": c, "obs": obs, "vc": vc, "vo": vo, "mode": draw(st.sampled_from(modes)),
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "shots": draw(st.sampled_from([100, 2000])),
        "key": draw(gen.SEED),
        "swap": draw(st.booleans()),
        "vf": draw(gen.VFORM),
    }


strategy = _case


def nontrivial(c):
    return any(k in c["vo"] and abs(c["vo"][k] - x) > 1e-6 for k, x in c["vc"].items())


def labels(c):
    out = ["what=" + c["what"], "mode=" + c["mode"]]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    return out


def run(c):
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s = B.state(c["state"])
    vc, vo = c["vc"], c["vo"]
    dens, arr = ref.evolve(c["state"], c["circuit"], vc)
    want = np.array([ref.expval(dens, arr, o, vo) for o in c["obs"]])
    mode = DiffMode(c["mode"])
    what = c["what"]

    def both(f):
        a, b = B.values(vc, f), B.values(vo, f)
        return {"observables": b, "circuit": a} if c["swap"] else {"circuit": a, "observables": b}

    def f(v, **kw):
        return horqrux.expectation(s, circ, obs, v, diff_mode=mode, **kw)

    if what == "value":
        B.same(B.sut(f, both(c["vf"])), want, f"expectation values ({mode})", 1e-8)
    elif what == "shots":
        est = B.asarr(B.sut(f, both(c["vf"]), n_shots=c["shots"], key=B.key(c["key"])))
        B.need(est.shape == want.shape and np.all(np.isfinite(est)), lambda: f"estimates {est}")
        for j, o in enumerate(c["obs"]):
            mean, var = stats.moments(dens, arr, o, vo)
            ev = stats.spectrum(o, c["n"], vo)
            b = stats.bernstein(var, ev[-1] - ev[0], c["shots"]) + 1e-7
            B.need(abs(est[j] - mean) <= b, lambda: f"estimate {est[j]} of {mean}, bound {b}")
    elif what == "missing":
        # the value of a name of one side is not taken from the other side
        names = sorted(gen.used_names(c["circuit"]) if c["swap"] else set().union(*(gen.used_names(o) for o in c["obs"])))
        drop = names[c["key"] % len(names)]
        every = {**vo, **vc}
        a, b = B.values(every, c["vf"]), B.values(every, c["vf"])
        del (a if c["swap"] else b)[drop]
        try:
            got = f({"circuit": a, "observables": b})
        except KeyError:
            return
        except Exception as e:
            B.fail(f"missing value of {drop!r} raised {type(e).__name__} instead of KeyError")
        B.fail(f"the value of {drop!r}, missing on one side, was taken from the other: {got}")
    elif what == "grad":
        v = both("jnp")
        g = B.sut(jax.grad(lambda v: jnp.sum(f(v))), v)
        B.need(set(g) == {"circuit", "observables"}, lambda: f"gradient with keys {set(g)}")
        B.need(set(g["circuit"]) == set(vc) and set(g["observables"]) == set(vo), "gradient with other names")
        nc, no = sorted(vc), sorted(vo)
        w = ref.grad(c["state"], c["circuit"], c["obs"], vc, nc, vo).sum(axis=1)
        B.same(np.array([B.asarr(g["circuit"][k]) for k in nc]), w, "gradient of the circuit values", 1e-7)
        w = ref.obs_grad(c["state"], c["circuit"], c["obs"], vc, no, vo).sum(axis=1)
        B.same(np.array([B.asarr(g["observables"][k]) for k in no]), w, "gradient of the values of the observables", 1e-7)
    else:
        v = {**vo, **vc}
        names = sorted(v)
        jv = {k: jnp.asarray(x) for k, x in v.items()}
        g = B.sut(jax.grad(lambda v: jnp.sum(f(v))), jv)
        w = ref.grad(c["state"], c["circuit"], c["obs"], v, names).sum(axis=1)
        w = w + ref.obs_grad(c["state"], c["circuit"], c["obs"], v, names).sum(axis=1)
        B.same(np.array([B.asarr(g[k]) for k in names]), w, "gradient of common values", 1e-7)
        # one dictionary given to both sides is the same as the common dictionary
        a = B.sut(f, jv)
        b = B.sut(f, {"circuit": jv, "observables": jv})
        B.same(a, B.asarr(b), "common values against separate equal values", 1e-9)
