"""C15: sparse and dense arithmetic give the same results, and conversions between them lose nothing."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.utils.operator_utils import DiffMode, OperationType, expand_operator, inner

RESPELL = True
EXAMPLES = {"quick": 340, "thorough": 6000}
RULE = (
    "circuits of 1-4 gates on 1-3 qubits (controlled, nested, named and numeric angles, fixed parameters) and trees "
    "of Scale/Add/Observable, made sparse by conversion or by the sparse flag, applied to sparse states; expectation "
    "values of sparse observables in AD and adjoint mode; matrices; inner products; to_dense(to_sparse(x)) must act as "
    "x, keeping shifts, noise, names, fixed parameters and register size; everything is compared with the dense reference. "
    "Non-trivial: at least two gates or a controlled/composite operation"
)
ASSUMPTIONS = [
    "at most 3 qubits and 4 gates (sparse operations are retraced by JAX at every call)",
    "gradients, sampling and noise are not supported on sparse arrays",
]


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(("run", 4), ("expect", 3), ("tree", 2), ("round", 6), ("tensor", 3), ("array", 5), ("inner", 1), ("shift", 2)))
    n = draw(gen.weighted((1, 1), (2, 4), (3, 3)))
    names = gen.NAMES[:3]
    out = {"kind": kind, "n": n, "make": draw(st.sampled_from(["convert", "flag"]))}
    if kind in ("tensor", "expect", "tree") and n == 3 and draw(st.integers(0, 2)) > 0:
        n = out["n"] = 2
    used = set()
    if kind == "array":
        k = draw(st.integers(1, 3))
        out.update(seed=draw(gen.SEED), k=k, mask=draw(st.integers(0, 2**16)), shape=draw(st.sampled_from(["matrix", "matrix", "matrix", "tensor", "vector"])))
        full = list(range(k + draw(gen.weighted((0, 1), (1, 3), (2, 2 if k < 3 else 0)))))
        out["full"] = len(full)
        out["sup"] = sorted(draw(st.permutations(full))[:k])
        return out
    if kind == "inner":
        return {**out, "state": gen.pure(draw, n), "state2": gen.pure(draw, n)}
    if kind == "shift":
        g = gen.gate(draw, n, names=names, pool=ref.PARAM, noise=True)
        return {**out, "state": gen.pure(draw, n), "gate": g, "by": draw(gen.angles()), "values": gen.values_for(draw, gen.used_names(g, set(names)))}
    if kind in ("tree", "round", "tensor") and (kind == "tree" or draw(st.booleans())):
        op = _tree(draw, n, 2, names, 2 if kind != "round" else 3)
    else:
        op = gen.circuit(
            draw, n, 1, draw(st.integers(1, {"round": 6, "tensor": 2}.get(kind, 3))), nest=1, empty=kind != "tensor", names=names, max_controls=2,
            noise=kind == "round" and draw(st.booleans()),
        )
        op["fparams"] = draw(st.permutations(names))[: draw(st.integers(0, 3))]
    out["op"] = op
    gen.used_names(op, used)
    out["state"] = gen.pure(draw, n)
    out["full"] = draw(st.booleans())
    if kind == "expect":
        out["obs"] = gen.observables(draw, n, 1, draw(gen.weighted((1, 3), (2, 1))), names=names, max_terms=2)
        out["mode"] = draw(st.sampled_from(["ad", "adjoint"]))
        for o in out["obs"]:
            gen.used_names(o, used)
    out["values"] = gen.values_for(draw, used, extra=True)
    out["vf"] = draw(gen.VFORM.map(lambda f: "jnp" if f == "vec" else f))
    return out


def _tree(draw, n, depth, names, width):
    r = draw(st.integers(0, 9)) if depth < 2 else draw(st.integers(4, 9))
    if depth == 0 or r < 4:
        return gen.gate(draw, n, names=names, max_controls=2)
    if r < 7:
        by = draw(st.one_of(st.sampled_from(names), st.floats(-3, 3, allow_nan=False)))
        return {"k": "scale", "by": by, "ops": _tree(draw, n, depth - 1, names, width)}
    k = draw(st.sampled_from(["add", "seq", "obs"] if depth == 2 else ["add", "seq"]))
    return {"k": k, "ops": [_tree(draw, n, depth - 1, names, width) for _ in range(draw(st.integers(1, width)))]}


strategy = _case


def nontrivial(c):
    if c["kind"] in ("array", "inner", "shift"):
        return c["n"] > 1
    return len(ref.flat(c["op"])) >= 2 or bool(ref.flat(c["op"])[0].get("c"))


def labels(c):
    out = ["kind=" + c["kind"], f"n={c['n']}", "make=" + c["make"]]
    if "op" in c:
        out.append("root=" + c["op"].get("k", "gate"))
    return out


def dense(x, what="result"):
    return B.asarr(x.todense() if hasattr(x, "todense") else x, what)


def sparse_state(spec):
    return B.sut(to_sparse, B.state(spec))


def make(c, op):
    if c["make"] == "flag" and op.get("k") != "circ":
        return B.sut(B.op, op, True)
    return B.sut(to_sparse, B.sut(B.op, op))


def run(c):
    kind, n = c["kind"], c["n"]
    if kind == "array":
        d = 2 ** c["k"]
        m = ref.general_matrix(d, c["seed"])
        keep = (np.random.RandomState(c["mask"]).rand(d, d) < 0.5)
        m = np.where(keep, m, 0)
        if c["shape"] == "tensor":
            m = m.reshape((2,) * (2 * c["k"]))
        elif c["shape"] == "vector":
            m = m[0].reshape((2,) * c["k"])
        s = B.sut(to_sparse, jnp.asarray(m))
        B.need(hasattr(s, "todense"), "to_sparse of an array is not sparse")
        back = B.sut(to_dense, s)
        B.need(not hasattr(back, "todense"), "to_dense of a sparse array is not dense")
        B.same(back, m, "to_dense(to_sparse(array))", 0, 0)
        if c["shape"] == "matrix":
            full, sup = tuple(range(c["full"])), tuple(c["sup"])
            big = 2 ** len(full)
            got = dense(B.sut(expand_operator, s, sup, full))
            eye = np.eye(big, dtype=complex).reshape((2,) * len(full) + (big,))
            B.same(got, ref.apply_mat(eye, m, list(sup)).reshape(big, big), "expand_operator of a sparse matrix")
        return
    s = sparse_state(c["state"])
    r = ref.state(c["state"])
    if kind == "inner":
        r2 = ref.state(c["state2"])
        got = dense(B.sut(inner, s, sparse_state(c["state2"])))
        B.same(got.reshape(()), np.vdot(r.ravel(), r2.ravel()), "inner product of sparse states")
        return
    if kind == "shift":
        # a gate that carries a shift keeps it
        g = c["gate"]
        o = B.gate(g)
        o = B.sut(
            type(o), generator_name=o.generator_name, target=o.target[0], control=o.control[0], noise=o.noise, param=o.param, shift=c["by"]
        )
        if c["make"] == "flag":
            o = horqrux.QuantumCircuit(n, [o])
        back = B.sut(to_dense, B.sut(to_sparse, o))
        x = dict(g, p=ref.pval(g["p"], c["values"]) + c["by"])
        dens, want = ref.evolve(c["state"], x, {})
        B.check_state(B.sut(back, B.state(c["state"]), B.values(c["values"])), dens, want, "to_dense(to_sparse(shifted gate)) on a state", 1e-8)
        return
    op, v = c["op"], B.values(c["values"], c["vf"])
    if kind == "run":
        o = make(c, op)
        got = B.sut(horqrux.run, o, s, v)
        B.need(hasattr(got, "todense"), "a sparse circuit on a sparse state gives a dense state")
        B.same(dense(got), ref.apply_op(r, op, c["values"]), "sparse circuit on a sparse state")
        return
    if kind == "tree":
        o = make(c, op)
        f = o.forward if op["k"] == "obs" else o
        B.same(dense(B.sut(f, s, v)), ref.apply_op(r, op, c["values"]), "sparse composite on a sparse state", 1e-8)
        return
    if kind == "tensor":
        o = make(c, op)
        if not c["full"]:
            got = dense(B.sut(o.tensor, v))
            B.same(got, ref.matrix_on(op, ref.support(op), c["values"]), "matrix of the sparse operation", 1e-8)
            return
        full = tuple(range(n))
        got = dense(B.sut(o.tensor, v, full))
        B.same(got, ref.matrix_on(op, full, c["values"]), "matrix of the sparse operation on the register", 1e-8)
        return
    if kind == "expect":
        o = make(c, op)
        obs = [make(c, x) for x in c["obs"]]
        got = dense(B.sut(horqrux.expectation, s, o, obs, v, diff_mode=DiffMode(c["mode"])))
        dens, arr = ref.evolve(c["state"], op, c["values"])
        want = np.array([ref.expval(dens, arr, x, c["values"]) for x in c["obs"]])
        B.same(got, want, f"sparse expectation values ({c['mode']})", 1e-8)
        return
    # round trip: the result must act as the original on dense states
    o = B.sut(B.op, op)
    sp = make(c, op)
    back = B.sut(to_dense, sp)
    B.need(type(back) is type(o) and type(sp) is type(o), lambda: f"conversion of {type(o).__name__} gives {type(sp).__name__} and {type(back).__name__}")
    B.need(back.qubit_support == o.qubit_support == sp.qubit_support, "conversion changes the qubit support")
    if op.get("k") in ("circ", "seq"):
        B.need(set(back.param_names) == set(o.param_names) == set(sp.param_names), "conversion changes the parameters")
    if op.get("k") == "circ":
        for x in (sp, back):
            B.need(x.n_qubits == o.n_qubits, "conversion changes n_qubits")
            B.need(list(x.fparams) == list(o.fparams), "conversion changes the fixed parameters")
            B.need(set(x.vparams) == set(o.vparams), "conversion changes the variational parameters")
    fl = [g for g in back] if op.get("k") != "scale" else []
    if "g" in op:
        fl = [back]
    for g in fl:
        for h in (list(g) if not hasattr(g, "generator_name") else [g]):
            if hasattr(h, "sparse"):
                B.need(not h.sparse, "an operation is still sparse after to_dense")
    if "g" in op or op["k"] in ("seq", "circ"):
        dens, want = (True, None) if ref.has_noise(op) else (False, None)
        dens, want = ref.evolve(c["state"], op, c["values"])
        B.check_state(B.sut(back, B.state(c["state"]), v), dens, want, "to_dense(to_sparse(operation)) on a state", 1e-8)
    else:
        f = back.forward if op["k"] == "obs" else back
        B.check_state(B.sut(f, B.state(c["state"]), v), False, ref.apply_op(r, op, c["values"]), "to_dense(to_sparse(operation))", 1e-8)
    # and the input of the conversion is not changed
    if not ref.has_noise(op):
        f = o.forward if op.get("k") == "obs" else o
        B.check_state(B.sut(f, B.state(c["state"]), v), False, ref.apply_op(r, op, c["values"]), "operation after its conversion", 1e-8)
