"""C23: derivatives of gates and of evolved states are the derivatives of what is applied."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux import apply_gates
from horqrux.utils.operator_utils import DensityMatrix, OperationType

RESPELL = True
EXAMPLES = {"quick": 1300, "thorough": 16000}
RULE = (
    "RX/RY/RZ/PHASE with 0-4 controls on 1-6 qubits, named and numeric angles, dense and sparse: the matrix of the "
    "derivative, its application as a JACOBIAN operation (zero where a control is not satisfied), its agreement with "
    "forward-mode differentiation of the gate; and the derivative of the evolved state or density matrix of a circuit "
    "of 1-6 gates (repeated angles, noise) in each named angle. Non-trivial: a control, several gates, or an angle "
    "with sin and cos both above 0.01"
)
ASSUMPTIONS = ["sparse derivatives on at most 3 qubits"]


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(("gate", 8), ("jvp", 2), ("circuit", 3)))
    n = draw(st.integers(1, 6)) if kind == "gate" else draw(gen.weighted((1, 1), (2, 4), (3, 3)))
    out = {"kind": kind, "n": n}
    if kind == "circuit":
        names = gen.NAMES[: draw(st.integers(1, 3))]
        noisy = draw(st.integers(0, 3)) == 0
        c = gen.circuit(draw, n, 1, draw(st.sampled_from([2, 5])), nest=1, names=names, noise=noisy, max_controls=2)
        if not gen.used_names(c):
            c["ops"].append({"g": draw(st.sampled_from(ref.PARAM)), "t": [draw(st.integers(0, n - 1))], "p": names[0]})
        out["circuit"] = c
        out["state"] = gen.anystate(draw, n, 25)
        used = gen.used_names(c)
    else:
        out["gate"] = gen.gate(draw, n, pool=list(ref.PARAM), names=gen.NAMES[:2], forms=kind == "gate", control_weight=60, max_controls=4)
        if kind == "jvp":
            out["gate"]["p"] = "a"
        out["state"] = gen.pure(draw, n)
        out["sparse"] = kind == "gate" and n <= 3 and draw(st.integers(0, 11)) == 0
        used = gen.used_names(out["gate"])
    out["values"] = gen.values_for(draw, used, extra=True)
    out["vf"] = draw(gen.VFORM)
    return out


strategy = _case


def nontrivial(c):
    if c["kind"] == "circuit":
        return len(ref.flat(c["circuit"])) > 1
    th = ref.pval(c["gate"]["p"], c["values"])
    return bool(c["gate"].get("c")) or min(abs(np.sin(th / 2)), abs(np.cos(th / 2))) > 0.01


def labels(c):
    out = ["kind=" + c["kind"], f"n={c['n']}"]
    if "gate" in c:
        out += ["gate=" + c["gate"]["g"], f"controls={len(c['gate'].get('c', []))}"]
        if c.get("sparse"):
            out.append("sparse")
    return out


def run(c):
    n = c["n"]
    s, r = B.state(c["state"]), ref.state(c["state"])
    if c["kind"] == "circuit":
        circ = B.sut(B.op, c["circuit"])
        names = sorted(gen.used_names(c["circuit"]))
        v = {k: jnp.asarray(x) for k, x in c["values"].items()}
        gates = ref.flat(c["circuit"])
        dens = ref.is_dm(c["state"]) or ref.has_noise(c["circuit"])
        r0 = r if ref.is_dm(c["state"]) or not dens else ref.to_dm(r)
        for name in names:
            want = 0
            for i, g in enumerate(gates):
                if g["g"] in ref.PARAM and g["p"] == name:
                    x = r0
                    for j, h in enumerate(gates):
                        x = ref._apply_lin(x, h, c["values"], dens, "d" if i == j else None)
                    want = want + x
            t = {k: jnp.asarray(1.0 if k == name else 0.0) for k in v}
            out, tan = B.sut(jax.jvp, lambda v: horqrux.run(circ, s, v), (v,), (t,))
            B.need(isinstance(tan, DensityMatrix) == dens, "wrong kind of derivative")
            B.same(B.array(tan), want, f"derivative of the evolved state in {name}", 1e-8)
        return
    g = c["gate"]
    v = B.values(c["values"], c["vf"])
    gate = B.sut(B.gate, g, bool(c.get("sparse")))
    d1 = ref.gate_matrix(g, c["values"], 1)
    want = ref.apply_mat(r, d1, g["t"], ref.ctrl(g), kill=True)
    if c["kind"] == "jvp":
        # three routes to the same derivative
        name = g["p"]
        th = c["values"][name]
        tan = B.sut(jax.jvp, lambda x: gate(s, {**v, name: x}), (jnp.asarray(th),), (jnp.asarray(1.0),))[1]
        B.same(tan, want, "forward derivative of the gate")
        h = 1e-5
        num = (B.asarr(gate(s, {**v, name: th + h})) - B.asarr(gate(s, {**v, name: th - h}))) / (2 * h)
        B.same(num, want, "difference quotient of the gate", 1e-6)
    m = B.sut(gate.jacobian, v)
    if hasattr(m, "todense"):
        m = m.todense()
    B.same(m, d1, "matrix of the derivative")
    if c.get("sparse"):
        from horqrux.utils.conversion import to_sparse

        got = B.sut(apply_gates, to_sparse(s), gate, v, OperationType.JACOBIAN)
        B.same(got.todense(), want, "sparse derivative of the gate applied to a state")
        return
    got = B.sut(apply_gates, s, gate, v, OperationType.JACOBIAN)
    B.same(got, want, "derivative of the gate applied to a state")
    got = B.sut(apply_gates, s, [gate], v, OperationType.JACOBIAN)
    B.same(got, want, "derivative of a list of one gate applied to a state")
