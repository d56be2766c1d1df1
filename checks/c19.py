"""C19: state constructors return the documented, normalised states."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.circuit import QuantumCircuit
from horqrux.primitives.primitive import H, X
from horqrux.utils.operator_utils import DensityMatrix, density_mat

RESPELL = True
EXAMPLES = {"quick": 2400, "thorough": 24000}
RULE = (
    "product_state of random bitstrings, zero_state, uniform_state and random_state on 1-12 qubits, dense and sparse, "
    "and density_mat of them (up to 5 qubits): shape, complex dtype, every amplitude, norm, determinism, agreement of "
    "sparse and dense, agreement with the circuit that prepares them, and the projector form of density_mat. "
    "Non-trivial: at least two qubits and not the zero state"
)
ASSUMPTIONS = ["one to twelve qubits"]


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(("product", 6), ("zero", 1), ("uniform", 1), ("random", 2), ("density", 3)))
    n = draw(st.integers(1, 5 if kind == "density" else 12))
    out = {"kind": kind, "n": n, "sparse": draw(st.integers(0, 3)) == 0}
    out["bits"] = "".join(draw(st.lists(st.sampled_from("01"), min_size=n, max_size=n)))
    out["circuit"] = n <= 6 and draw(st.integers(0, 3)) == 0
    if kind == "density":
        out["state"] = gen.pure(draw, n)
        out["seed"] = draw(gen.SEED)
        out["scale"] = draw(st.sampled_from([1.0, 1.0, 2.0]))
    return out


strategy = _case


def nontrivial(c):
    return c["n"] > 1 and c["kind"] != "zero" and ("1" in c["bits"] or c["kind"] != "product")


def labels(c):
    return ["kind=" + c["kind"], f"n={c['n']}", "sparse" if c["sparse"] else "dense"]


def check(got, want, c, what):
    if c["sparse"]:
        B.need(hasattr(got, "todense"), f"{what}: not sparse")
        got = B.sut(got.todense)
    else:
        B.need(not hasattr(got, "todense"), f"{what}: not dense")
    got = B.asarr(got)
    B.need(np.iscomplexobj(got), f"{what}: not complex")
    B.same(got, want, what, 1e-12, 1e-12)


def run(c):
    n, kind, sp = c["n"], c["kind"], c["sparse"]
    kw = {"sparse": True} if sp else {}
    d = 2**n
    if kind in ("product", "zero"):
        bits = c["bits"] if kind == "product" else "0" * n
        want = np.zeros((2,) * n, complex)
        want[tuple(int(b) for b in bits)] = 1
        got = B.sut(horqrux.product_state, bits, **kw) if kind == "product" else B.sut(horqrux.zero_state, n, **kw)
        check(got, want, c, f"{kind} state {bits}")
        # qubit 0 is the most significant bit
        flat = B.asarr(got.todense() if sp else got).ravel()
        B.need(int(np.argmax(np.abs(flat))) == int(bits, 2), "qubit 0 is not the most significant bit")
        if c["circuit"] and not sp:
            ops = [X(i) for i, b in enumerate(bits) if b == "1"]
            if ops:
                out = B.sut(horqrux.run, QuantumCircuit(n, ops), horqrux.zero_state(n), {})
                B.same(out, want, "X gates on the zero state")
        return
    if kind == "uniform":
        want = np.full((2,) * n, 2.0 ** (-n / 2), complex)
        got = B.sut(horqrux.uniform_state, n, **kw)
        check(got, want, c, "uniform state")
        if c["circuit"] and not sp:
            out = B.sut(horqrux.run, QuantumCircuit(n, [H(i) for i in range(n)]), horqrux.zero_state(n), {})
            B.same(out, want, "H gates on the zero state")
        return
    if kind == "random":
        want = B.asarr(B.sut(horqrux.random_state, n))
        B.need(want.shape == (2,) * n, lambda: f"random state of shape {want.shape}")
        B.need(np.all(np.isfinite(want)), "random state is not finite")
        B.need(abs(np.linalg.norm(want.ravel()) - 1) < 1e-9, lambda: f"norm {np.linalg.norm(want.ravel())}")
        check(B.sut(horqrux.random_state, n, **kw), want, c, "random state")
        return
    r = c["scale"] * ref.state(c["state"])
    rho = B.sut(density_mat, jnp.asarray(r))
    B.need(isinstance(rho, DensityMatrix), "density_mat gives no density matrix")
    v = r.ravel()
    B.same(B.array(rho), np.outer(v, v.conj()).reshape((2,) * (2 * n)), "density_mat of a state", 1e-12)
    again = B.sut(density_mat, rho)
    B.need(isinstance(again, DensityMatrix), "density_mat of a density matrix")
    B.same(B.array(again), B.array(rho), "density_mat of a density matrix", 0, 0)
