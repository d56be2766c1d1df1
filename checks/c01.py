"""C01: a gate acts on a state vector as its documented matrix."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import ref
from horqrux import apply_gates, apply_operator, run
from horqrux.circuit import QuantumCircuit

RESPELL = True
EXAMPLES = {"quick": 8000, "thorough": 80000}
RULE = (
    "one gate of the whole gate set (or an arbitrary matrix through apply_operator) on a random register of "
    "1-12 qubits, random target/control order and index spelling, numeric or named angle; compared with the NumPy "
    "reference. Non-trivial: the register has more qubits than the gate or the gate is controlled or parametric, "
    "and the state is not a basis state"
)
ASSUMPTIONS = ["double precision (the library enables x64 at import)", "the gate's qubits are distinct and in range"]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 8), (2, 8), (3, 8), (4, 8), (5, 8), (6, 8), (7, 6), (9, 2 if tier == "quick" else 8), (12, 1)))
    state = gen.pure(draw, n)
    how = draw(gen.weighted(("call", 4), ("apply_gates", 2), ("list", 2), ("run", 2), ("operator", 3), ("default", 1)))
    if how == "operator":
        k = draw(st.integers(1, min(3, n)))
        nc = draw(st.integers(0, min(2, n - k)))
        q = gen.qubits(draw, n, k + nc)
        kind = draw(st.sampled_from(["unitary", "general", "hermitian"]))
        g = {"g": "MAT", "t": q[:k], "kind": kind, "seed": draw(gen.SEED)}
        if nc:
            g["c"] = q[k:]
        return {"n": n, "state": state, "gate": g, "values": {}, "how": how}
    g = gen.gate(draw, n, forms=True, max_controls=6, control_weight=50)
    if g["g"] in ref.PARAM and not isinstance(g["p"], str):
        g["pf"] = draw(gen.weighted(("float", 3), ("np", 1), ("int", 1)))
    if how == "default":
        # a gate called without a state acts on the zero state of its own qubits
        m = {q: i for i, q in enumerate(ref.support(g))}
        g = ref.relabel(g, m)
        state = {"n": len(m), "kind": "zero"}
    values = gen.values_for(draw, gen.used_names(g), extra=True)
    return {"n": state["n"], "state": state, "gate": g, "values": values, "how": how, "vf": draw(gen.VFORM)}


strategy = _case


def nontrivial(c):
    g = c["gate"]
    return (c["n"] > len(g["t"]) or "c" in g or "p" in g) and c["state"]["kind"] not in ("zero", "basis")


def labels(c):
    g = c["gate"]
    out = [f"n={c['n']}", f"controls={len(ref.ctrl(g))}", "how=" + c["how"], "gate=" + g["g"]]
    if isinstance(g.get("p"), str):
        out.append("named parameter")
    if len(g["t"]) > 1 and g["t"] != sorted(g["t"]):
        out.append("unsorted targets")
    if list(ref.ctrl(g)) != sorted(ref.ctrl(g)):
        out.append("unsorted controls")
    return out


def run(c):
    g, how = dict(c["gate"]), c["how"]
    if g.get("pf") == "int":
        g["p"] = float(int(g["p"]))
        bg = {**g, "pf": "int"}
    else:
        bg = g
    want = ref.apply_op(ref.state(c["state"]), g, c["values"])
    s = B.state(c["state"])
    if how == "operator":
        control = tuple(g["c"]) if g.get("c") else (None,)
        got = B.sut(apply_operator, s, jnp.asarray(ref.g_mat(g)), tuple(g["t"]), control)
        B.check_state(got, False, want, "apply_operator")
        return
    v = B.values(c["values"], c.get("vf", "float"))
    gate = B.sut(B.gate, bg)
    if how == "call":
        got = B.sut(gate, s, v)
    elif how == "default":
        got = B.sut(lambda: gate(values=v))
    elif how == "apply_gates":
        got = B.sut(apply_gates, s, gate, v)
    elif how == "list":
        got = B.sut(apply_gates, s, [gate], v)
    else:
        got = B.sut(_run, c["n"], gate, s, v)
    B.check_state(got, False, want, f"{g['g']} applied by {how}")


def _run(n, gate, s, v):
    import horqrux

    return horqrux.run(QuantumCircuit(n, [gate]), s, v)
