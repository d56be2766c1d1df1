"""C20: overlaps, equivalence, norms, probabilities and register sizes of states."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.operator_utils import DensityMatrix, inner, is_normalized, num_qubits, probabilities

EXAMPLES = {"quick": 4000, "thorough": 40000}
RULE = (
    "pairs of states on 1-10 qubits (independent, equal up to a global phase, scaled, slightly rotated towards an "
    "orthogonal state by a known angle) and density matrices on 1-6 qubits: inner, overlap, equivalent_state, "
    "is_normalized, probabilities and num_qubits against their definitions, symmetry and phase invariance; for an "
    "angle the true overlap decides the answer of equivalent_state outside a factor 10 above and 100 below its tolerance. "
    "Non-trivial: neither identical nor basis states"
)
ASSUMPTIONS = [
    "equivalent_state accepts an overlap within 1e-5 of one; between 1e-7 and 1e-4 nothing is claimed",
    "probabilities of a density matrix take it in the matrix form (2^n, 2^n)",
]


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(("pair", 4), ("phase", 3), ("tilt", 4), ("scaled", 3), ("dm", 2)))
    n = draw(st.integers(1, 6 if kind == "dm" else 10))
    out = {"kind": kind, "n": n, "s0": gen.pure(draw, n)}
    if kind == "pair":
        out["s1"] = gen.pure(draw, n)
        out["z"] = [draw(st.floats(-3, 3, allow_nan=False)) for _ in range(4)] if draw(st.booleans()) else [1.0, 0.0, 1.0, 0.0]
    elif kind == "phase":
        out["phase"] = draw(st.floats(-7, 7, allow_nan=False))
    elif kind == "tilt":
        out["angle"] = draw(st.one_of(st.floats(0.04, 1.57), st.floats(0.011, 0.1), st.floats(1e-9, 2e-4), st.sampled_from([0.02, 0.05, 1.5707963267948966, 0.1, 0.7])))
        out["phase"] = draw(st.floats(-7, 7, allow_nan=False))
        out["seed"] = draw(gen.SEED)
    elif kind == "scaled":
        out["norm"] = draw(st.one_of(st.sampled_from([2.0, 0.5, 1.001, 0.999, 1.0001, 0.9999, 1.0, 1e-3, 30.0]), st.floats(1.001, 5), st.floats(0.01, 0.999)))
        out["phase"] = draw(st.floats(-7, 7, allow_nan=False))
    else:
        out["dm"] = gen.density(draw, n)
    return out


strategy = _case


def nontrivial(c):
    if c["kind"] == "dm":
        return c["dm"]["kind"] == "dm"
    return c["s0"]["kind"] == "haar"


def labels(c):
    return ["kind=" + c["kind"], f"n={c['n']}"]


def yes(x):
    return bool(B.asarr(x))


def run(c):
    kind, n = c["kind"], c["n"]
    if kind == "dm":
        r = ref.state(c["dm"])
        d = 2**n
        p = B.sut(probabilities, DensityMatrix(jnp.asarray(r.reshape(d, d))))
        B.same(p, np.real(np.diagonal(r.reshape(d, d))), "probabilities of a density matrix")
        k = B.sut(num_qubits, DensityMatrix(jnp.asarray(r)))
        B.need(k == n, lambda: f"num_qubits of a density matrix: {k}")
        return
    a = ref.state(c["s0"])
    ja = jnp.asarray(a)
    if kind == "pair":
        z = c["z"]
        a = complex(z[0], z[1]) * a
        b = complex(z[2], z[3]) * ref.state(c["s1"])
        ja, jb = jnp.asarray(a), jnp.asarray(b)
        ip = np.vdot(a.ravel(), b.ravel())
        B.same(B.sut(inner, ja, jb), ip, "inner product")
        B.same(B.sut(inner, jb, ja), np.conj(ip), "inner product, exchanged")
        B.same(B.sut(horqrux.overlap, ja, jb), abs(ip) ** 2, "overlap", 1e-9)
        B.same(B.sut(horqrux.overlap, jb, ja), abs(ip) ** 2, "overlap, exchanged", 1e-9)
        p = B.asarr(B.sut(probabilities, ja))
        B.same(p, np.abs(a.ravel()) ** 2, "probabilities")
        B.need(B.sut(num_qubits, ja) == n, "num_qubits")
        want = abs(ip) ** 2
        if abs(want - 1) > 1e-4:
            B.need(not yes(B.sut(horqrux.equivalent_state, ja, jb)), lambda: f"equivalent_state is true for overlap {want}")
        elif abs(want - 1) < 1e-7:
            B.need(yes(B.sut(horqrux.equivalent_state, ja, jb)), lambda: f"equivalent_state is false for overlap {want}")
        return
    ph = np.exp(1j * c["phase"])
    if kind == "phase":
        jb = jnp.asarray(ph * a)
        B.need(yes(B.sut(horqrux.equivalent_state, ja, jb)), "a state is not equivalent to itself up to a phase")
        B.same(B.sut(horqrux.overlap, ja, jb), np.float64(1), "overlap up to a phase")
        B.need(yes(B.sut(is_normalized, jb)), "a normalised state is not recognised")
        return
    if kind == "tilt":
        for k in range(20):  # a direction orthogonal to the state
            o = ref.state({"n": n, "kind": "haar", "seed": c["seed"] + k}).ravel()
            o = o - np.vdot(a.ravel(), o) * a.ravel()
            if np.linalg.norm(o) > 0.1:
                break
        o = (o / np.linalg.norm(o)).reshape(a.shape)
        t = c["angle"]
        jb = jnp.asarray(ph * (np.cos(t) * a + np.sin(t) * o))
        w = np.cos(t) ** 2
        B.same(B.sut(horqrux.overlap, ja, jb), w, "overlap", 1e-9)
        got = yes(B.sut(horqrux.equivalent_state, ja, jb)), yes(B.sut(horqrux.equivalent_state, jb, ja))
        want = w > 0.5 and 1 - w < 1e-7
        B.need(got == (want, want), lambda: f"equivalent_state {got} for overlap {w}")
        B.need(yes(B.sut(is_normalized, jb)), "a normalised state is not recognised")
        return
    s = c["norm"]
    jb = jnp.asarray(s * ph * a)
    norm = abs(s - 1) < 1e-9
    B.need(yes(B.sut(is_normalized, jb)) == norm, lambda: f"is_normalized of a state of norm {s}")
    B.same(B.sut(horqrux.overlap, jb, jb), np.float64(s**4), "overlap of a state with itself", 1e-9)
    B.same(B.sut(probabilities, jb), s * s * np.abs(a.ravel()) ** 2, "probabilities of a scaled state")
    B.need(yes(B.sut(horqrux.equivalent_state, ja, jb)) == norm, lambda: f"equivalent_state of a state and {s} times it")
