"""C04: noise is the documented channel on the target qubit after the (controlled) gate."""
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux import apply_gates
from horqrux.circuit import QuantumCircuit

RESPELL = True
EXAMPLES = {"quick": 3600, "thorough": 36000}
RULE = (
    "circuits of 1-14 gates on 1-6 qubits, single-target gates carrying 0-5 channels of the seven documented kinds "
    "(boundary and random probabilities), pure or mixed inputs, executed by run, gate calls or apply_gates with "
    "grouping/merging; compared with the reference sum of Kraus terms; the Kraus operators themselves are compared "
    "with the documented formulas. Non-trivial: some channel has a probability strictly between 0 and 1"
)
ASSUMPTIONS = ["noise is attached to gates with one target qubit (others are rejected by the library)"]


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 9)) == 0:
        return {"kind": "kraus", "noise": [draw(gen.channel())]}
    n = draw(gen.weighted((1, 18), (2, 18), (3, 18), (4, 12), (5, 3), (6, 1)))
    c = gen.circuit(draw, n, 1, draw(gen.weighted((1, 6), (3, 6), (6, 4), (14, 1))), nest=1, names=gen.NAMES[:3], noise=True)
    if not ref.has_noise(c):
        g = gen.gate(draw, n, pool=["X", "H", "RX", "RY", "PHASE", "I", "T"], noise=False, names=gen.NAMES[:3])
        g["noise"] = draw(gen.noises())
        c["ops"].insert(draw(st.integers(0, len(c["ops"]))), g)
    return {
        "kind": "evolve",
        "n": n,
        "state": gen.anystate(draw, n, 50),
        "circuit": c,
        "values": gen.values_for(draw, gen.used_names(c), extra=True),
        "how": draw(st.sampled_from(["run", "oneby", "list", "list"])),
        "group": draw(st.booleans()),
        "merge": draw(st.booleans()),
    }


strategy = _case


def _channels(c):
    if c["kind"] == "kraus":
        return c["noise"]
    return [x for g in ref.flat(c["circuit"]) for x in g.get("noise", [])]


def nontrivial(c):
    def mid(p):
        return any(0 < x < 1 for x in (p if isinstance(p, list) else [p]))

    return any(mid(p) for _, p in _channels(c))


def labels(c):
    out = [k for k, _ in _channels(c)]
    if c["kind"] == "kraus":
        return out
    out += [f"n={c['n']}", "how=" + c["how"], "dm input" if ref.is_dm(c["state"]) else "pure input"]
    if any(g.get("noise") and g.get("c") for g in ref.flat(c["circuit"])):
        out.append("noisy controlled gate")
    if any(len(g.get("noise", [])) > 1 for g in ref.flat(c["circuit"])):
        out.append("several channels on a gate")
    return out


def run(c):
    if c["kind"] == "kraus":
        (kind, p) = c["noise"][0]
        inst = B.sut(B.noise, c["noise"])[0]
        ks = [B.asarr(k) for k in B.sut(lambda: tuple(inst.kraus))]
        want = ref.kraus(kind, p)
        # same channel: compare the superoperators (Kraus operators are unique up to a unitary mix)
        B.need(all(k.shape == (2, 2) for k in ks), "Kraus operators are not 2x2")
        got = sum(np.kron(k, k.conj()) for k in ks)
        B.same(got, sum(np.kron(k, k.conj()) for k in want), f"{kind}({p}) superoperator")
        return
    how, v = c["how"], B.values(c["values"])
    _, want = ref.evolve(c["state"], c["circuit"], c["values"])
    s = B.state(c["state"])

    def go():
        if how == "run":
            return horqrux.run(B.op(c["circuit"]), s, v)
        flat = [B.op(g) for g in ref.flat(c["circuit"])]
        if how == "list":
            return apply_gates(s, flat, v, group_gates=c["group"], merge_ops=c["merge"])
        x = s
        for g in flat:
            x = g(x, v)
        return x

    B.check_state(B.sut(go), True, want, f"noisy circuit executed by {how}")
