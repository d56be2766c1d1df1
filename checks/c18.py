"""C18: Hamiltonian evolution applies exp(-i H t) to its target qubits."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.analog import HamiltonianEvolution
from horqrux.composite import OpSequence

RESPELL = True
EXAMPLES = {"quick": 1000, "thorough": 12000}
RULE = (
    "hermitian H on 1-4 target qubits in any order (random, degenerate, diagonal, zero, the matrix of an observable), "
    "times of both signs, with and without controls, on pure and mixed states, alone, inside a circuit with digital "
    "gates, repeated, in sequences on permuted and different targets and controls, daggered, in matrix form, under jit/vmap over time, and differentiated in time; compared with exp(-iHt) "
    "from an eigendecomposition; evolving by t1 then t2 equals t1+t2 and -t undoes t. Non-trivial: H t with norm above "
    "0.01 on a state other than |0..0>"
)
# jax.scipy.linalg.expm rounds its number of squarings down: its own error reaches 5e-8 for norms of 10 and above
TOL = 1e-6
ASSUMPTIONS = [
    "hermitian H with norm times |t| at most about 60",
    "amplitudes to 1e-6, the accuracy of jax.scipy.linalg.expm being 5e-8 at some norms",
]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 4), (2, 8), (3, 8), (4, 4), (6, 1)))
    k = min(n, draw(gen.weighted((1, 6), (2, 8), (3, 4), (4, 1))))
    nc = draw(st.integers(0, min(2, n - k))) if draw(st.integers(0, 9)) < 4 else 0
    q = gen.qubits(draw, n, k + nc)
    hk = draw(gen.weighted(("random", 6), ("projector", 1), ("diag", 1), ("zero", 1), ("pauli", 2), ("observable", 2)))
    h = {"kind": hk, "seed": draw(gen.SEED)}
    if hk == "observable":
        h["obs"] = gen.observable(draw, k)
    how = draw(gen.weighted(("run", 4), ("circuit", 4), ("seq", 4), ("compose", 2), ("tensor", 2), ("grad", 1), ("jit", 1), ("vmap", 1)))
    out = {
        "n": n, "t": q[:k], "c": q[k:], "h": h, "how": how,
        "time": draw(st.one_of(gen.SMOOTH, st.sampled_from([0.0, 1.0, -1.0, 1e-3, 10.0]))),
        "time2": draw(gen.SMOOTH),
        "state": gen.anystate(draw, n, 25),
        "vf": draw(gen.VFORM),
        "tform": draw(st.sampled_from(["tuple", "tuple", "int", "list", "array"])),
    }
    if how == "circuit":
        out["before"] = gen.gates(draw, n, 0, 3, names=gen.NAMES[:2])
        out["after"] = gen.gates(draw, n, 0, 3, names=gen.NAMES[:2])
        out["between"] = gen.gates(draw, n, 0, 1, names=gen.NAMES[:2]) if draw(st.booleans()) else None
        used = set()
        for g in out["before"] + out["after"] + (out["between"] or []):
            gen.used_names(g, used)
        out["values"] = gen.values_for(draw, used)
    if how == "seq":
        # placements of several evolutions: the same qubits in other orders and roles, or other qubits
        seq = []
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.integers(0, 3)):
                p = draw(st.permutations(q))
            else:
                p = gen.qubits(draw, n, k + nc)
            if draw(st.integers(0, 2)) == 0:
                p = list(draw(st.permutations(p[:k]))) + list(p[k:])
            seq.append({"t": list(p[:k]), "c": list(p[k:]) if draw(st.integers(0, 3)) else []})
        out["seq"] = seq
        out["dagger"] = draw(st.integers(0, 3)) == 0
    if how == "grad":
        out["obs"] = gen.observable(draw, n)
    return out


strategy = _case


def ham(c):
    d = 2 ** len(c["t"])
    kind, seed = c["h"]["kind"], c["h"]["seed"]
    r = np.random.RandomState(seed)
    if kind == "random":
        return ref.hermitian(d, seed)
    if kind == "zero":
        return np.zeros((d, d), complex)
    if kind == "diag":
        return np.diag(r.uniform(-2, 2, d)).astype(complex)
    if kind == "projector":
        v = r.normal(size=d) + 1j * r.normal(size=d)
        v /= np.linalg.norm(v)
        return np.outer(v, v.conj())
    if kind == "pauli":
        m = np.eye(1, dtype=complex)
        for _ in c["t"]:
            m = np.kron(m, ref.CONST["IXYZ"[r.randint(4)]])
        return m
    return ref.matrix(c["h"]["obs"], len(c["t"]), {})


def evo(H, t):
    w, v = np.linalg.eigh(H)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def nontrivial(c):
    return np.linalg.norm(ham(c), 2) * abs(c["time"]) > 0.01 and c["state"]["kind"] != "zero"


def labels(c):
    out = ["how=" + c["how"], "H=" + c["h"]["kind"], f"targets={len(c['t'])}", f"controls={len(c['c'])}"]
    if c["t"] != sorted(c["t"]):
        out.append("unsorted targets")
    out.append("density matrix" if ref.is_dm(c["state"]) else "pure")
    return out


def apply(c, s, m):
    if ref.is_dm(c["state"]):
        return ref.dm_sandwich(s, m, m, c["t"], c["c"])
    return ref.apply_mat(s, m, c["t"], c["c"])


def digital(c, s, gates):
    for g in gates:
        s = ref.dm_apply(s, g, c["values"]) if ref.is_dm(c["state"]) else ref.apply_op(s, g, c["values"])
    return s


def run(c):
    H = ham(c)
    dm = ref.is_dm(c["state"])
    t = B.form(c["t"], c["tform"])
    kw = {"control": tuple(c["c"])} if c["c"] else {}
    op = B.sut(HamiltonianEvolution, t, **kw)
    how = c["how"]
    Hj = jnp.asarray(H)
    if c["h"]["kind"] == "observable":
        o = B.sut(B.op, c["h"]["obs"])
        Hj = B.sut(o.tensor, {}, tuple(range(len(c["t"]))))

    def vals(time, **kw):
        v = {"time_evolution": time, **kw.get("more", {})}
        return {"hamiltonian": Hj, **B.values(v, c["vf"])}

    U = evo(H, c["time"])
    s, r = B.state(c["state"]), ref.state(c["state"])
    want = apply(c, r, U)
    if how == "run":
        B.check_state(B.sut(op, s, vals(c["time"])), dm, want, "evolution of the state", TOL)
    elif how == "circuit":
        a, b = [B.op(g) for g in c["before"]], [B.gate(g) for g in c["after"]]
        ops = a + [op] + b
        want = apply(c, digital(c, r, c["before"]), U)
        if c["between"] is not None:  # the same evolution twice, possibly with gates in between
            ops = a + [op] + [B.op(g) for g in c["between"]] + [B.sut(HamiltonianEvolution, t, **kw)] + b
            want = apply(c, digital(c, want, c["between"]), U)
        want = digital(c, want, c["after"])
        circ = B.sut(horqrux.QuantumCircuit, c["n"], ops)
        B.check_state(B.sut(horqrux.run, circ, s, vals(c["time"], more=c["values"])), dm, want, "circuit with an evolution", TOL)
        if not dm:
            from horqrux.apply import apply_gates

            got = B.sut(apply_gates, s, ops, vals(c["time"], more=c["values"]), group_gates=bool(c["h"]["seed"] % 2))
            B.check_state(got, dm, want, "apply_gates with an evolution", TOL)
    elif how == "seq":
        from horqrux.apply import apply_gates

        ops, mats = [op], [(c["t"], c["c"])]
        for x in c["seq"]:
            kx = {"control": tuple(x["c"])} if x["c"] else {}
            ops.append(B.sut(HamiltonianEvolution, tuple(x["t"]), **kx))
            mats.append((x["t"], x["c"]))
        if c["dagger"]:
            U = U.conj().T
        want = r
        for t_, c_ in mats:
            want = ref.dm_sandwich(want, U, U, t_, c_) if dm else ref.apply_mat(want, U, t_, c_)
        v = vals(c["time"])
        if c["dagger"]:
            from horqrux.utils.operator_utils import OperationType

            got = B.sut(apply_gates, s, ops, v, OperationType.DAGGER)
            B.check_state(got, dm, want, "daggers of evolutions on different placements", TOL)
            return
        B.check_state(B.sut(apply_gates, s, ops, v), dm, want, "evolutions on different placements", TOL)
        B.check_state(B.sut(apply_gates, s, ops, v, group_gates=True), dm, want, "the same, grouped", TOL)
        circ = B.sut(horqrux.QuantumCircuit, c["n"], ops)
        B.check_state(B.sut(horqrux.run, circ, s, v), dm, want, "the same as a circuit", TOL)
    elif how == "compose":
        one = B.sut(op, B.sut(op, s, vals(c["time"])), vals(c["time2"]))
        two = B.sut(op, s, vals(c["time"] + c["time2"]))
        B.check_state(one, dm, apply(c, want, evo(H, c["time2"])), "evolution by t1 then t2", TOL)
        B.same(B.array(one), B.array(two), "evolution by t1 then t2 against t1 + t2", TOL)
        back = B.sut(op, B.sut(op, s, vals(c["time"])), vals(-c["time"]))
        B.same(B.array(back), r, "evolution by t then -t", TOL)
    elif how == "tensor":
        qs = sorted(c["t"] + c["c"])
        m = {q: i for i, q in enumerate(qs)}
        d = 2 ** len(qs)
        eye = np.eye(d, dtype=complex).reshape((2,) * len(qs) + (d,))
        w = ref.apply_mat(eye, U, [m[q] for q in c["t"]], [m[q] for q in c["c"]]).reshape(d, d)
        B.same(B.sut(op.tensor, vals(c["time"])), w, "matrix of the evolution", TOL)
        full = tuple(range(c["n"]))
        d = 2 ** c["n"]
        eye = np.eye(d, dtype=complex).reshape((2,) * c["n"] + (d,))
        w = ref.apply_mat(eye, U, c["t"], c["c"]).reshape(d, d)
        B.same(B.sut(OpSequence([op]).tensor, vals(c["time"]), full), w, "matrix of the evolution on the register", TOL)
    elif how == "grad":
        obs = B.sut(B.op, c["obs"])
        circ = horqrux.QuantumCircuit(c["n"], [op])

        def e(time):
            return horqrux.expectation(s, circ, [obs], {"hamiltonian": Hj, "time_evolution": time})[0]

        got = B.sut(jax.grad(e), c["time"])
        # d<O>/dt = <i [H, O]>, H controlled: projected on the satisfied controls
        x = want.reshape(2 ** c["n"], -1) if dm else want.ravel()
        rho = x if dm else np.outer(x, x.conj())
        d = 2 ** c["n"]
        eye = np.eye(d, dtype=complex).reshape((2,) * c["n"] + (d,))
        Hf = ref.apply_mat(eye, H, c["t"], c["c"], kill=True).reshape(d, d)
        Of = ref.matrix(c["obs"], c["n"], {})
        B.same(got, np.float64(np.trace(1j * (Hf @ Of - Of @ Hf) @ rho).real), "time derivative", 10 * TOL)
    elif how == "jit":
        got = B.sut(jax.jit(lambda s, h, x: op(s, {"hamiltonian": h, "time_evolution": x})), s, Hj, c["time"])
        B.check_state(got, dm, want, "evolution under jit", TOL)
    else:
        ts = jnp.array([c["time"], c["time2"], 0.0])
        got = B.sut(jax.vmap(lambda x: op(s, {"hamiltonian": Hj, "time_evolution": x})), ts)
        arr = B.array(got)
        for i, x in enumerate([c["time"], c["time2"], 0.0]):
            B.same(arr[i], apply(c, r, evo(H, x)), "evolution under vmap over time", TOL)
