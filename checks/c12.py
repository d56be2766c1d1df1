"""C12: finite-shot expectation values are means of eigenvalues drawn from the Born distribution."""
import jax
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
import stats
from horqrux.utils.operator_utils import DiffMode

RESPELL = True
EXAMPLES = {"quick": 960, "thorough": 13000}
SHOTS = [1, 2, 3, 10, 100, 1000, 5000, 20000]
RULE = (
    "circuits of 0-8 gates on 1-6 qubits, pure, mixed or noisy, 1-7 observables which need not commute, 1-400000 shots "
    "and a random key, AD and GPSR mode: every estimate lies in the spectrum's range and within a Bernstein bound "
    "(failure probability 1e-12) of the exact value, the number of +1 is binomial, one shot gives an eigenvalue, eigenstates give the eigenvalue, "
    "the same key gives the same estimates, and the spread over 400 keys matches the number of shots. Non-trivial: "
    "an observable with positive variance"
)
ASSUMPTIONS = ["hermitian observables", "keys are made by jax.random.PRNGKey or jax.random.key"]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 8), (2, 8), (3, 8), (4, 6), (5, 2), (6, 1)))
    noisy = draw(st.integers(0, 5)) == 0
    dm = draw(st.integers(0, 5)) == 0
    if noisy or dm:
        n = min(n, 3)
    names = gen.NAMES[:2]
    c = gen.circuit(draw, n, 0, draw(gen.weighted((2, 2), (8, 3))), nest=1, names=names, noise=noisy, max_controls=2)
    obs = gen.observables(draw, n, 1, draw(gen.weighted((4, 9), (7, 1))), names=names)
    used = gen.used_names(c)
    for o in obs:
        gen.used_names(o, used)
    how = draw(gen.weighted(("one", 6), ("spread", 1)))
    tilt = None
    if draw(st.integers(0, 7)) == 0:
        # almost an eigenstate: one eigenvalue is rare
        tilt = [draw(st.sampled_from([1e-4, 3e-4, 1e-3, 3e-3, 0.02])), draw(st.sampled_from("XYZ")), draw(st.integers(0, n - 1))]
    return {
        "tilt": tilt,
        "n": n,
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "circuit": c,
        "obs": obs,
        "values": gen.values_for(draw, used, strat=gen.SMOOTH),
        "shots": draw(gen.weighted((50, 4), (200, 2), (1000, 1))) if how == "spread" else draw(gen.weighted(*[(s, 2 if s < 1000 else 3) for s in SHOTS])),
        "key": draw(gen.SEED),
        "mode": draw(st.sampled_from(["ad", "ad", "gpsr"])),
        "how": how,
        "repeat": draw(st.booleans()),
    }


def strategy(tier):
    return _case(tier).map(_tilted)


def _tilted(c):
    tilt = c.pop("tilt")
    if tilt is None:
        return c
    p, axis, q = tilt
    g = {"X": "RY", "Y": "RX", "Z": "RY"}[axis]
    ops = [{"g": "RY", "t": [q], "p": np.pi / 2}] if axis == "X" else [{"g": "RX", "t": [q], "p": -np.pi / 2}] if axis == "Y" else []
    ops.append({"g": g, "t": [q], "p": 2 * float(np.arcsin(np.sqrt(p)))})
    c["state"] = {"n": c["n"], "kind": "zero"}
    c["circuit"] = {"k": "circ", "n": c["n"], "ops": ops}
    c["obs"] = [{"k": "obs", "ops": [{"g": axis, "t": [q]}]}] + c["obs"][:2]
    if c["how"] == "one":
        # about 40 times the rare eigenvalue, or more
        c["shots"] = 400000 if p < 1e-3 else 200000
    return c


def _exact(c):
    dens, arr = ref.evolve(c["state"], c["circuit"], c["values"])
    return [stats.moments(dens, arr, o, c["values"]) for o in c["obs"]]


def nontrivial(c):
    return any(v > 1e-6 for _, v in _exact(c))


def labels(c):
    out = [f"shots={c['shots']}", "mode=" + c["mode"], "how=" + c["how"], f"observables={len(c['obs'])}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    if any(v <= 1e-12 for _, v in _exact(c)):
        out.append("zero variance")
    return out


def run(c):
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s, v = B.state(c["state"]), B.values(c["values"])
    N = c["shots"]
    ex = _exact(c)
    spec = [stats.spectrum(o, c["n"], c["values"]) for o in c["obs"]]

    def estimate(key):
        return horqrux.expectation(
            s, circ, obs, v, diff_mode=DiffMode(c["mode"]), n_shots=N, key=key
        )

    key = B.key(c["key"])
    if c["how"] == "spread":
        K = 400
        est = B.asarr(B.sut(jax.vmap(estimate), jax.random.split(key, K)))
        B.need(est.shape == (K, len(obs)), lambda: f"shape {est.shape}")
        for j, ((mean, var), ev) in enumerate(zip(ex, spec)):
            width = ev[-1] - ev[0]
            B.need(
                abs(est[:, j].mean() - mean) <= stats.bernstein(var, width, N * K),
                lambda: f"mean over {K} keys of observable {j}: {est[:, j].mean()} for {mean}",
            )
            if var > 0.1 * width**2 and width > 1e-6:
                r = est[:, j].var(ddof=1) / (var / N)
                B.need(0.5 < r < 1.7, lambda: f"variance over {K} keys of observable {j} is {r:.3f} of var/shots")
        return
    est = B.asarr(B.sut(estimate, key))
    B.need(est.shape == (len(obs),), lambda: f"shape {est.shape}")
    B.need(not np.iscomplexobj(est) and np.all(np.isfinite(est)), "estimates are not finite real numbers")
    for j, ((mean, var), ev) in enumerate(zip(ex, spec)):
        lo, hi = ev[0], ev[-1]
        tol = 1e-8 * max(1.0, abs(lo), abs(hi))
        B.need(lo - tol <= est[j] <= hi + tol, lambda: f"estimate {est[j]} outside the spectrum [{lo}, {hi}]")
        bound = stats.bernstein(var, hi - lo, N) + tol
        if var < 1e-14 * (hi - lo) ** 2:
            # an eigenstate: every shot gives the eigenvalue (up to probabilities of order 1e-14)
            bound = tol
        B.need(
            abs(est[j] - mean) <= bound,
            lambda: f"observable {j}: estimate {est[j]} of {mean} with {N} shots, bound {bound:.3g}",
        )
        if N == 1:
            B.need(np.min(np.abs(ev - est[j])) <= 10 * tol, lambda: f"single shot {est[j]} is not an eigenvalue")
        if ev.size and np.all(np.abs(np.abs(ev) - 1) < 1e-10):
            k = (est[j] + 1) / 2 * N
            B.need(abs(k - round(k)) < 1e-6, lambda: f"estimate {est[j]} is not a mean of {N} values +1/-1")
            # the number of +1 is binomial
            p = min(1.0, max(0.0, (mean + 1) / 2))
            tail = stats.binomial(int(round(k)), N, p)
            B.need(tail > stats.DELTA, lambda: f"observable {j}: +1 in {k:.0f} of {N} shots, its probability is {p:.6g}")
    if c["repeat"]:
        again = B.asarr(B.sut(estimate, B.key(c["key"])))
        B.need(np.array_equal(est, again), "the same key gives different estimates")
