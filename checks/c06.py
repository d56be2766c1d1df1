"""C06: noiseless evolution is unitary and undone by the daggered gates in reverse order."""
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux import apply_gates
from horqrux.utils.operator_utils import OperationType

RESPELL = True
EXAMPLES = {"quick": 2800, "thorough": 36000}
RULE = (
    "circuits of 1-20 gates (also evolutions on several targets) on 1-8 qubits applied to two states (pure or mixed): inner product, norm, trace and "
    "purity are preserved; applying every gate daggered in reverse order (one by one or as a list with "
    "grouping/merging) restores the input; gate.dagger is the inverse of the gate's matrix, also for sparse gates. "
    "Non-trivial: at least two gates, one of them not self-inverse"
)
ASSUMPTIONS = ["noiseless gates", "circuit matrices are compared on at most 4 qubits"]
SELF = {"I", "X", "NOT", "Y", "Z", "H", "SWAP"}


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 9), (2, 9), (3, 9), (4, 9), (5, 6), (8, 1)))
    dm = draw(st.integers(0, 9)) < 3
    if dm:
        n = min(n, 4)
    c = gen.circuit(draw, n, 1, draw(gen.weighted((3, 2), (8, 3), (20, 2))), names=gen.NAMES[:3])
    values = gen.values_for(draw, gen.used_names(c))
    gen.add_ham(draw, c["ops"], values, n)
    return {
        "n": n,
        "dm": dm,
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "other": gen.density(draw, n) if dm else gen.pure(draw, n),
        "circuit": c,
        "values": values,
        "list": draw(st.booleans()),
        "group": draw(st.booleans()),
        "merge": draw(st.booleans()),
        "gate": gen.gate(draw, n, names=["a"]),
        "angle": draw(gen.angles()),
        "sparse": draw(st.booleans()),
    }


strategy = _case


def nontrivial(c):
    ops = c["circuit"]["ops"]
    return len(ops) >= 2 and any(g["g"] not in SELF for g in ops)


def labels(c):
    return [f"n={c['n']}", "dm" if c["dm"] else "pure", f"list={c['list']} group={c['group']} merge={c['merge']}"]


def run(c):
    n, v = c["n"], B.values(c["values"])
    circ = B.sut(B.op, c["circuit"])
    s, o = B.state(c["state"]), B.state(c["other"])
    s0, o0 = ref.state(c["state"]), ref.state(c["other"])
    s1, o1 = B.sut(horqrux.run, circ, s, v), B.sut(horqrux.run, circ, o, v)
    a, b = B.array(s1), B.array(o1)
    B.need(a.shape == s0.shape, "shape of the output state")
    if c["dm"]:
        d = 2**n
        m0, m1 = s0.reshape(d, d), a.reshape(d, d)
        k0, k1 = o0.reshape(d, d), b.reshape(d, d)
        B.same(np.trace(m1), np.trace(m0), "trace")
        B.same(np.trace(m1 @ m1), np.trace(m0 @ m0), "purity")
        B.same(np.trace(m1 @ k1), np.trace(m0 @ k0), "overlap of two density matrices")
    else:
        B.same(np.vdot(a.ravel(), a.ravel()), np.vdot(s0.ravel(), s0.ravel()), "norm")
        B.same(np.vdot(o0.ravel(), s0.ravel()), np.vdot(b.ravel(), a.ravel()), "inner product of two states")

    def undo():
        back = [B.op(g) for g in reversed(c["circuit"]["ops"])]
        if c["list"]:
            return apply_gates(
                s1, back, v, OperationType.DAGGER, group_gates=c["group"], merge_ops=c["merge"]
            )
        x = s1
        for g in back:
            x = apply_gates(x, g, v, OperationType.DAGGER)
        return x

    B.check_state(B.sut(undo), c["dm"], s0, "circuit followed by its daggered gates in reverse order")
    # matrices
    g = c["gate"]
    gv = {g["p"] if isinstance(g.get("p"), str) else "a": c["angle"]}
    gate = B.sut(B.gate, g, c["sparse"])

    def dense(x):
        return B.asarr(x.todense() if hasattr(x, "todense") else x)

    m = ref.gate_matrix(g, gv)
    B.same(dense(B.sut(gate.dagger, gv)), m.conj().T, f"dagger of {g['g']}")
    if n <= 4:
        u = B.asarr(B.sut(circ.tensor, v))
        B.same(u.conj().T @ u, np.eye(len(u)), "circuit matrix times its adjoint")
