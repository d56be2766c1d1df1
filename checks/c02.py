"""C02: a circuit is the ordered composition of its operations, whatever the execution path."""
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux import apply_gates
from horqrux.circuit import QuantumCircuit
from horqrux.composite import OpSequence

RESPELL = True
EXAMPLES = {"quick": 4000, "thorough": 40000}
RULE = (
    "sequences of 0-60 gates (runs on equal qubits, controls, evolutions on up to 3 ordered targets, repeated and numeric parameters, nested sequences) on "
    "1-10 qubits, executed through run, circuit call, apply_gates on list/tuple/generator/circuit iterator, with every "
    "combination of grouping and merging, or split in two calls. Non-trivial: at least two operations, not all on "
    "disjoint qubits"
)
ASSUMPTIONS = ["noiseless gates (noise: C04)"]
HOWS = ["run", "call", "list", "tuple", "generator", "iter", "seq", "split", "oneby", "circlist"]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (6, 2), (8, 1), (10, 1)))
    names = gen.NAMES[:3]
    big = draw(gen.weighted((3, 2), (8, 5), (15, 3), (25, 1), (60, 1)))
    lo = 0 if draw(st.integers(0, 19)) == 0 else 1
    c = gen.circuit(draw, n, lo, big, nest=2, names=names, control_weight=30)
    values = gen.values_for(draw, gen.used_names(c), extra=True)
    gen.add_ham(draw, c["ops"], values, n)
    return {
        "n": n,
        "state": gen.pure(draw, n),
        "circuit": c,
        "values": values,
        "how": draw(st.sampled_from(HOWS)),
        "group": draw(st.booleans()),
        "merge": draw(st.booleans()),
        "cut": draw(st.integers(0, 60)),
        "vf": draw(gen.VFORM),
    }


strategy = _case


def nontrivial(c):
    fl = ref.flat(c["circuit"])
    return len(fl) >= 2 and sum(len(ref.support(g)) for g in fl) > len(ref.support(c["circuit"]))


def labels(c):
    fl = ref.flat(c["circuit"])
    out = ["how=" + c["how"], f"n={c['n']}", f"gates={min(len(fl) // 5 * 5, 20)}+"]
    if any(a["t"] == b["t"] and a.get("c") == b.get("c") for a, b in zip(fl, fl[1:])):
        out.append("mergeable neighbours")
    if any("k" in o for o in c["circuit"]["ops"]):
        out.append("nested")
    if c["how"] in ("list", "tuple", "generator", "iter"):
        out.append(f"group={c['group']} merge={c['merge']}")
    return out


def run(c):
    want = ref.apply_op(ref.state(c["state"]), c["circuit"], c["values"])
    s, v, how = B.state(c["state"]), B.values(c["values"], c["vf"]), c["how"]
    circ = B.sut(B.op, c["circuit"])
    kw = {"group_gates": c["group"], "merge_ops": c["merge"]}

    def go():
        flat = [B.op(g) for g in ref.flat(c["circuit"])]
        if how == "run":
            return horqrux.run(circ, s, v)
        if how == "call":
            return circ(s, v)
        if how == "list":
            return apply_gates(s, flat, v, **kw)
        if how == "tuple":
            return apply_gates(s, tuple(flat), v, **kw)
        if how == "generator":
            return apply_gates(s, (g for g in flat), v, **kw)
        if how == "iter":
            return apply_gates(s, iter(circ), v, **kw)
        if how == "seq":
            return OpSequence(flat)(s, v)
        if how == "split":
            k = min(c["cut"], len(flat))
            a, b = QuantumCircuit(c["n"], flat[:k]), QuantumCircuit(c["n"], flat[k:])
            return horqrux.run(b, horqrux.run(a, s, v), v)
        if how == "circlist":
            # a circuit built from another sequence
            return horqrux.run(QuantumCircuit(c["n"], OpSequence([circ])), s, v)
        x = s
        for g in flat:
            x = g(x, v)
        return x

    B.check_state(B.sut(go), False, want, f"circuit executed by {how}")
