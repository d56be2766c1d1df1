"""C26: qubit labels carry no meaning: relabelling, idle qubits and independent parts."""
import numpy as np
import jax.numpy as jnp
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.operator_utils import DensityMatrix

RESPELL = True
EXAMPLES = {"quick": 900, "thorough": 12000}
RULE = (
    "circuits of 1-5 gates on 1-5 qubits placed on arbitrary qubits of a register of up to 10 qubits (5 for density "
    "matrices and noise) in a random state: relabelling circuit and state together relabels the result and leaves "
    "expectation values alone; a product of a small state and an idle register stays a product with the small result; "
    "the result equals the reference on the large register. Non-trivial: the register is larger than the circuit or "
    "the relabelling moves a qubit"
)
ASSUMPTIONS = ["registers of at most 10 qubits (pure) or 5 qubits (density matrix)"]


@st.composite
def _case(draw, tier):
    dens = draw(st.integers(0, 3)) == 0
    noisy = draw(st.integers(0, 5)) == 0
    k = draw(gen.weighted((1, 2), (2, 6), (3, 6), (4, 2), (5, 1)))
    n = draw(st.integers(k, 5 if dens or noisy else 10))
    k = min(k, n)
    c = gen.circuit(draw, k, 1, draw(st.sampled_from([2, 5])), nest=1, names=gen.NAMES[:2], noise=noisy, max_controls=3)
    obs = gen.observables(draw, k, 1, 2, max_terms=2, names=gen.NAMES[:2])
    used = gen.used_names(c)
    for o in obs:
        gen.used_names(o, used)
    values = gen.values_for(draw, used, strat=gen.SMOOTH)
    gen.add_ham(draw, c["ops"], values, k)
    return {
        "k": k,
        "n": n,
        "circuit": c,
        "obs": obs,
        "at": list(draw(st.permutations(range(n))))[:k],
        "perm": list(draw(st.permutations(range(n)))),
        "state": gen.density(draw, n) if dens else gen.pure(draw, n),
        "small": gen.density(draw, k) if dens else gen.pure(draw, k),
        "idle": gen.pure(draw, n - k),
        "values": values,
        "how": draw(st.sampled_from(["relabel", "idle", "place"])),
    }


strategy = _case


def nontrivial(c):
    return c["n"] > c["k"] or c["perm"] != list(range(c["n"]))


def labels(c):
    out = ["how=" + c["how"], f"register={c['n']}", f"qubits={c['k']}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    return out


def move(arr, perm, dens):
    """Qubit q of arr becomes qubit perm[q]."""
    n = len(perm)
    ax = list(perm) + ([p + n for p in perm] if dens else [])
    return np.moveaxis(arr, range(len(ax)), ax)


def wrap(arr, dens):
    return DensityMatrix(jnp.asarray(arr)) if dens else jnp.asarray(arr)


def run(c):
    n, k, at = c["n"], c["k"], c["at"]
    vals = c["values"]
    v = B.values(vals)
    place = dict(enumerate(at))
    op = {**ref.relabel(c["circuit"], place), "n": n}
    obs = [ref.relabel(o, place) for o in c["obs"]]
    circ = B.sut(B.op, op)
    jobs = [B.sut(B.op, o) for o in obs]
    dens_in = ref.is_dm(c["state"])
    if c["how"] == "idle":
        # a small state on the circuit's qubits, an idle state elsewhere
        rest = [q for q in range(n) if q not in at]
        perm = at + rest
        small, idle = ref.state(c["small"]), ref.state(c["idle"])
        if dens_in:
            big = np.multiply.outer(small, ref.to_dm(idle))
            # axes: small rows, small columns, idle rows, idle columns
            m = n - k
            big = np.transpose(big, [*range(k), *range(2 * k, 2 * k + m), *range(k, 2 * k), *range(2 * k + m, 2 * n)])
        else:
            big = np.multiply.outer(small, idle)
        dens, out_small = ref.evolve(c["small"], c["circuit"], vals)
        if dens:
            i2 = ref.to_dm(idle)
            m = n - k
            w = np.multiply.outer(out_small, i2)
            w = np.transpose(w, [*range(k), *range(2 * k, 2 * k + m), *range(k, 2 * k), *range(2 * k + m, 2 * n)])
        else:
            w = np.multiply.outer(out_small, idle)
        s = wrap(move(big, perm, dens_in), dens_in)
        B.check_state(B.sut(horqrux.run, circ, s, v), dens, move(w, perm, dens), "circuit beside an idle register", 1e-8)
        want = np.array([ref.expval(dens, out_small, o, vals) for o in c["obs"]])
        B.same(B.sut(horqrux.expectation, s, circ, jobs, v), want, "expectation values beside an idle register", 1e-8)
        return
    r = ref.state(c["state"])
    dens, arr = ref.evolve(c["state"], op, vals)
    want = np.array([ref.expval(dens, arr, o, vals) for o in obs])
    s = wrap(r, dens_in)
    if c["how"] == "place":
        B.check_state(B.sut(horqrux.run, circ, s, v), dens, arr, "circuit on a large register", 1e-8)
        B.same(B.sut(horqrux.expectation, s, circ, jobs, v), want, "expectation values on a large register", 1e-8)
        return
    perm = c["perm"]
    m = dict(enumerate(perm))
    circ2 = B.sut(B.op, ref.relabel(op, m))
    obs2 = [B.sut(B.op, ref.relabel(o, m)) for o in obs]
    s2 = wrap(move(r, perm, dens_in), dens_in)
    one = B.sut(horqrux.run, circ, s, v)
    two = B.sut(horqrux.run, circ2, s2, v)
    B.check_state(two, dens, move(B.array(one), perm, dens), "relabelled circuit on the relabelled state", 1e-8)
    B.same(B.sut(horqrux.expectation, s2, circ2, obs2, v), want, "expectation values after relabelling", 1e-8)
