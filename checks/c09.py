"""C09: exact expectation values are <psi|O|psi> or tr(O rho), in every mode and for every observable."""
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.operator_utils import DiffMode, density_mat

RESPELL = True
EXAMPLES = {"quick": 2600, "thorough": 26000}
RULE = (
    "circuits of 0-30 gates on 1-8 qubits (nested, noisy, named/numeric/repeated angles), pure or mixed input, 1-8 "
    "hermitian observables (sums, products, scaled, controlled, named coefficients, any qubit order), all "
    "differentiation modes that accept the input; compared with the reference; pure input and its density matrix must "
    "agree. Non-trivial: at least one gate and an observable with several terms or several qubits"
)
ASSUMPTIONS = [
    "observables are hermitian",
    "adjoint mode is checked on noiseless circuits and state vectors, which is what it accepts",
]
FLAT = "C09-composite-circuit"


@st.composite
def _case(draw, tier):
    big = draw(st.integers(0, 24)) == 0
    n = gen.size(draw, 1, draw(st.sampled_from([6, 8])) if big else 5)
    names = gen.NAMES[:3] if not big else gen.MANY
    noisy = draw(st.integers(0, 4)) == 0
    dm = draw(st.integers(0, 9)) < 3
    if noisy or dm:
        n = min(n, 4)
    lo = 0 if draw(st.integers(0, 14)) == 0 else 1
    c = gen.circuit(draw, n, lo, draw(gen.weighted((2, 2), (6, 3), (10, 1))) if not big else 30, nest=2, names=names, noise=noisy)
    if not noisy and not dm and draw(st.integers(0, 39)) == 0:
        # circuits containing sums or scaled operations: known finding, see run()
        k = draw(st.sampled_from(["scale", "add"]))
        o = {"k": k, "ops": gen.gate(draw, n, names=names)}
        if k == "scale":
            o["by"] = draw(st.sampled_from([2.0, -0.5, "a"]))
        else:
            o["ops"] = [o["ops"], gen.gate(draw, n, names=names)]
        c["ops"].insert(draw(st.integers(0, len(c["ops"]))), o)
    obs = gen.observables(draw, n, 1, 4 if not big else 8, names=names)
    used = gen.used_names(c)
    for o in obs:
        gen.used_names(o, used)
    modes = ["ad", "gpsr"] + ([] if noisy or dm else ["adjoint"])
    return {
        "n": n,
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "circuit": c,
        "obs": obs,
        "values": gen.values_for(draw, used, extra=True, strat=gen.SMOOTH),
        "mode": draw(st.sampled_from(modes + [None])),
        "vf": draw(gen.VFORM),
        "promote": draw(st.integers(0, 4)) == 0,
    }


strategy = _case


def nontrivial(c):
    return bool(ref.flat(c["circuit"])) and any(
        len(o["ops"]) > 1 or len(ref.support(o)) > 1 for o in c["obs"]
    )


def _composite(op):
    return "k" in op and (op["k"] in ("add", "scale") or any(_composite(o) for o in op["ops"]))


def labels(c):
    out = [f"mode={c['mode']}", f"n={c['n']}", f"observables={len(c['obs'])}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    if _composite(c["circuit"]):
        out.append("sum or scale in the circuit")
    return out


def run(c):
    want = _want(c, c["circuit"])
    mode = {} if c["mode"] is None else {"diff_mode": DiffMode(c["mode"])}
    v = B.values(c["values"], c["vf"])
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s = B.state(c["state"])
    got = B.asarr(B.sut(horqrux.expectation, s, circ, obs, v, **mode))
    if _composite(c["circuit"]) and not ref.close(got, want, 1e-8):
        # known finding: the sum or the factor is dropped and the gates are applied in sequence
        flat = _want(c, {"k": "circ", "ops": ref.flat(c["circuit"])})
        if ref.close(got, flat, 1e-8):
            return FLAT
    B.same(got, want, f"expectation values (mode {c['mode']})", 1e-8)
    if c["promote"] and not ref.is_dm(c["state"]) and c["mode"] != "adjoint" and not _composite(c["circuit"]):
        got = B.sut(horqrux.expectation, B.sut(density_mat, s), circ, obs, v, **mode)
        B.same(got, want, "expectation values of the density matrix of the state", 1e-8)


def _want(c, circuit):
    dens, arr = ref.evolve(c["state"], circuit, c["values"])
    return np.array([ref.expval(dens, arr, o, c["values"]) for o in c["obs"]])
