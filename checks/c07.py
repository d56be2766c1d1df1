"""C07: the matrix representation of an operation agrees with its action."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.composite import OpSequence
from horqrux.utils.operator_utils import expand_operator

RESPELL = True
EXAMPLES = {"quick": 1600, "thorough": 16000}
RULE = (
    "matrix of a gate, sequence, circuit, Scale, Add or Observable whose qubits carry arbitrary (also "
    "non-contiguous) labels up to 69, alone or on a random superset of its support in any order, dense or sparse, and "
    "expand_operator of a random matrix; compared with the reference matrix on the ascending qubits and with the "
    "action on a random state; a support that misses a qubit must raise ValueError. Non-trivial: several qubits and "
    "either a composite, a control, unsorted targets or an enlarged support"
)
ASSUMPTIONS = ["noise is not part of the matrix representation", "at most 11 qubits per matrix (above 7 only single gates)", "sequences are not empty (an empty one has no qubits)"]


def composite(draw, n, depth, names):
    r = draw(st.integers(0, 9))
    if depth == 0 or r < 3:
        return gen.gate(draw, n, names=names)
    if r < 6:
        m = draw(st.integers(1, 4))
        return {"k": "seq", "ops": [composite(draw, n, depth - 1, names) for _ in range(m)]}
    if r < 8:
        by = draw(st.one_of(st.sampled_from(names), st.floats(-3, 3, allow_nan=False)))
        return {"k": "scale", "by": by, "ops": composite(draw, n, depth - 1, names), "aslist": draw(st.booleans())}
    m = draw(st.integers(1, 3))
    ops = [composite(draw, n, depth - 1, names) for _ in range(m)]
    if draw(st.integers(0, 3)) == 0:
        ops.append(gen.rescaled(draw, ops[draw(st.integers(0, m - 1))], names))
    return {"k": draw(st.sampled_from(["add", "add", "obs"])), "ops": ops}


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(("gate", 3), ("circ", 3), ("comp", 3), ("expand", 2), ("reject", 1)))
    n = draw(gen.weighted((1, 12), (2, 12), (3, 12), (4, 8), (5, 2), (8, 1)))
    if n == 8:
        kind = "gate"
        n = draw(st.sampled_from([8, 9]))
    universe = draw(st.permutations(range(draw(st.sampled_from([n, n, n + 2, 12, 70, 70])))))
    lab = list(universe[:n])
    extra = list(universe[n : n + draw(st.integers(0, 2))])
    names = gen.NAMES[:3]
    out = {"kind": kind, "labels": lab, "extra": extra, "order": draw(st.integers(0, 10**6))}
    if kind == "expand":
        out["matrix"] = draw(gen.SEED)
        out["sparse"] = n + len(extra) <= 4 and draw(st.integers(0, 7)) == 0
        return out
    if kind in ("gate", "reject"):
        op = gen.gate(draw, n, names=names, max_controls=4 if n < 8 else n, control_weight=60)
    elif kind == "circ":
        op = gen.circuit(draw, n, 1, draw(gen.weighted((3, 2), (8, 2))), nest=2, empty=False, names=names)
    else:
        op = composite(draw, n, 2, names)
        if "g" in op:
            op = {"k": "add", "ops": [op]}
    out["op"] = op
    out["values"] = gen.values_for(draw, gen.used_names(op), extra=True)
    if kind == "circ" or op.get("k") == "seq":
        gen.add_ham(draw, op["ops"], out["values"], n, 20)
    out["full"] = draw(st.booleans())
    # sparse matrices are slow: small cases only (C15 is about them)
    small = len(ref.flat(op)) <= 2 and n + len(extra) <= 4
    small = small and "hamiltonian" not in out["values"]
    out["sparse"] = kind in ("gate", "circ") and small and draw(st.integers(0, 7)) == 0
    out["state"] = draw(gen.SEED)
    return out


strategy = _case


def _shuffle(xs, k):
    xs = list(xs)
    return [x for _, x in sorted((hash((k * 7919 + i * 104729) % 1000003), x) for i, x in enumerate(xs))]


def nontrivial(c):
    if c["kind"] == "expand":
        return len(c["labels"]) + len(c["extra"]) > 1
    op = c["op"]
    if c["kind"] == "reject":
        return True
    if "k" in op:
        return len(ref.support(op)) > 1
    return bool(op.get("c")) or (c["full"] and len(c["labels"]) > 1) or op["t"] != sorted(op["t"])


def labels(c):
    out = ["kind=" + c["kind"]]
    if c["labels"] != list(range(len(c["labels"]))):
        out.append("labels not 0..n-1")
    if c["kind"] != "expand":
        out.append("full support" if c["full"] else "own support")
        if c["sparse"]:
            out.append("sparse")
    return out


def dense(x):
    return B.asarr(x.todense() if hasattr(x, "todense") else x)


def run(c):
    lab = c["labels"]
    full = _shuffle(lab + c["extra"], c["order"])
    if c["kind"] == "expand":
        k = len(lab)
        m = ref.general_matrix(2**k, c["matrix"])
        x = jnp.asarray(m)
        if c["sparse"]:
            from horqrux.utils.conversion import to_sparse

            x = to_sparse(x)
        got = dense(B.sut(expand_operator, x, tuple(sorted(lab)), tuple(full)))
        pos = {q: i for i, q in enumerate(sorted(full))}
        n = len(full)
        eye = np.eye(2**n, dtype=complex).reshape((2,) * n + (2**n,))
        want = ref.apply_mat(eye, m, [pos[q] for q in sorted(lab)]).reshape(2**n, 2**n)
        B.same(got, want, "expand_operator")
        return
    op = ref.relabel(c["op"], dict(enumerate(lab)))
    v = B.values(c["values"])
    o = B.sut(B.op, op, c["sparse"])
    sup = ref.support(op)
    if c["kind"] == "reject":
        missing = [q for q in full if q != sup[c["order"] % len(sup)]] or [99]
        try:
            o.tensor(v, tuple(missing))
        except ValueError:
            pass
        except Exception as e:
            B.fail(f"tensor on a support missing a qubit raised {type(e).__name__} instead of ValueError")
        else:
            B.fail("tensor on a support missing a qubit was accepted")
        try:
            OpSequence([o]).tensor(v, tuple(missing))
        except ValueError:
            return
        except Exception as e:
            B.fail(f"tensor on a support missing a qubit raised {type(e).__name__} instead of ValueError")
        B.fail("tensor of a sequence on a support missing a qubit was accepted")
    if c["full"]:
        got = dense(B.sut(o.tensor, v, tuple(full)))
        qs = sorted(full)
    else:
        have = tuple(int(q) for q in o.qubit_support)
        B.need(have == tuple(sorted(sup)), lambda: f"qubit_support {have} does not list the qubits {sorted(sup)} of the matrix in its order")
        got = dense(B.sut(o.tensor, v))
        qs = sorted(sup)
    want = ref.matrix_on(op, qs, c["values"])
    B.same(got, want, f"matrix on qubits {qs}")
    if c["kind"] in ("gate", "circ") and not c["sparse"]:
        # the matrix acts like the operation: qubits relabelled to 0..m-1 in ascending order
        m = {q: i for i, q in enumerate(qs)}
        s = ref.state({"n": len(qs), "kind": "haar", "seed": c["state"]})
        o2 = B.sut(B.op, ref.relabel(op, m))
        out = B.array(B.sut(o2, jnp.asarray(s), v))
        B.same(got @ s.ravel(), out.ravel(), "matrix times state against the action on the state")
