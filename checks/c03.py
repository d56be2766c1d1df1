"""C03: density matrices evolve as U rho U^dagger."""
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux import apply_gates
from horqrux.utils.operator_utils import density_mat

RESPELL = True
EXAMPLES = {"quick": 4000, "thorough": 40000}
RULE = (
    "random mixed, pure and maximally mixed density matrices on 1-6 qubits, evolved by noiseless "
    "circuits of 1-30 gates (also evolutions on up to 3 ordered targets) through run, gate calls, apply_gates (with grouping/merging) or density_mat of a pure "
    "state; compared with the reference U rho U^dagger. Non-trivial: at least two qubits and a state that is not "
    "maximally mixed"
)
ASSUMPTIONS = ["noiseless gates (noise: C04)"]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 18), (2, 18), (3, 18), (4, 15), (5, 6 if tier == "quick" else 15), (6, 1 if tier == "quick" else 4)))
    c = gen.circuit(draw, n, 1, draw(gen.weighted((1, 6), (4, 9), (10, 6), (30, 1))), nest=1, names=gen.NAMES[:3])
    values = gen.values_for(draw, gen.used_names(c), extra=True)
    gen.add_ham(draw, c["ops"], values, n, 20)
    how = draw(st.sampled_from(["run", "oneby", "list", "list", "promote"]))
    st_ = gen.pure(draw, n) if how == "promote" else gen.density(draw, n)
    return {
        "n": n,
        "state": st_,
        "circuit": c,
        "values": values,
        "how": how,
        "group": draw(st.booleans()),
        "merge": draw(st.booleans()),
    }


strategy = _case


def nontrivial(c):
    return c["n"] >= 2 and c["state"]["kind"] != "mixed"


def labels(c):
    return ["how=" + c["how"], f"n={c['n']}", "state=" + c["state"]["kind"], f"gates={len(ref.flat(c['circuit']))}"]


def run(c):
    how, v = c["how"], B.values(c["values"])
    st0 = ref.state(c["state"])
    if how == "promote":
        want = ref.dm_apply(ref.to_dm(st0), c["circuit"], c["values"])
        s0 = B.state(c["state"])
        s = B.sut(density_mat, s0)
        B.check_state(s, True, ref.to_dm(st0), "density_mat")
        B.need(B.sut(density_mat, s) is not None, "density_mat of a density matrix")
        B.check_state(B.sut(density_mat, s), True, ref.to_dm(st0), "density_mat of a density matrix")
        got = B.sut(horqrux.run, B.op(c["circuit"]), s, v)
        B.check_state(got, True, want, "density matrix evolution")
        # commutes with the evolution of the state vector
        psi = B.sut(horqrux.run, B.op(c["circuit"]), s0, v)
        B.check_state(B.sut(density_mat, psi), True, want, "density matrix of the evolved state")
        return
    want = ref.dm_apply(st0, c["circuit"], c["values"])
    s = B.state(c["state"])

    def go():
        if how == "run":
            return horqrux.run(B.op(c["circuit"]), s, v)
        flat = [B.op(g) for g in ref.flat(c["circuit"])]
        if how == "list":
            return apply_gates(s, flat, v, group_gates=c["group"], merge_ops=c["merge"])
        x = s
        for g in flat:
            x = g(x, v)
        return x

    B.check_state(B.sut(go), True, want, f"density matrix evolved by {how}")
