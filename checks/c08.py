"""C08: scaling, adding and composing operations are linear algebra."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import ref
from c07 import composite

RESPELL = True
EXAMPLES = {"quick": 4000, "thorough": 40000}
RULE = (
    "random trees (depth up to 3) of Scale, Add, Observable and sequences over gates on 1-5 qubits, numeric and named "
    "scale factors (zero, negative, shared with gate angles), applied to a state; compared with the reference linear "
    "combination; plus linearity in the state, the expectation value an Observable returns on a pure state, and the "
    "matrix of the tree. Non-trivial: a Scale or Add with a composite child or at least two children"
)
ASSUMPTIONS = ["state vectors (sums of density matrices are not defined by the library)", "real scale factors"]


@st.composite
def _case(draw, tier):
    n = gen.size(draw, 1, 5)
    names = gen.NAMES[:3]
    op = composite(draw, n, 3, names)
    for _ in range(6):
        if "k" in op and op["k"] != "seq":
            break
        op = {
            "k": draw(st.sampled_from(["add", "scale", "obs"])),
            "ops": op,
            "by": draw(st.one_of(st.sampled_from(names), st.sampled_from([0.0, -1.0, 2.0, 0.5]), st.floats(-3, 3, allow_nan=False))),
        }
        if op["k"] != "scale":
            op.pop("by")
            op["ops"] = [op["ops"]] + [gen.gate(draw, n, names=names) for _ in range(draw(st.integers(0, 2)))]
    if draw(st.integers(0, 24)) == 0:
        # many terms
        op = {"k": draw(st.sampled_from(["add", "obs"])), "ops": [composite(draw, n, 1, names) for _ in range(draw(st.integers(6, 14)))]}
    return {
        "n": n,
        "op": op,
        "values": gen.values_for(draw, gen.used_names(op), extra=True),
        "s1": gen.pure(draw, n),
        "s2": gen.pure(draw, n),
        "z": [draw(st.floats(-2, 2, allow_nan=False)) for _ in range(4)],
        "vf": draw(gen.VFORM),
        "herm": gen.observable(draw, n, names=names),
        "hvalues": {k: draw(gen.SMOOTH) for k in names},
    }


strategy = _case


def _depth(op):
    if "g" in op:
        return 0
    kids = [op["ops"]] if op["k"] == "scale" else op["ops"]
    return 1 + max([_depth(o) for o in kids], default=0)


def nontrivial(c):
    op = c["op"]
    return _depth(op) >= 2 or (op["k"] != "scale" and len(op["ops"]) > 1)


def labels(c):
    out = ["root=" + c["op"]["k"], f"depth={_depth(c['op'])}", f"n={c['n']}"]
    if c["op"]["k"] == "scale":
        out.append("scale of " + c["op"]["ops"].get("k", "gate"))
    return out


def _apply(o, op, s, v):
    return B.sut(o.forward if op["k"] == "obs" else o, s, v)


def _has_inner_obs(op, top=True):
    if "g" in op:
        return False
    kids = [op["ops"]] if op["k"] == "scale" else op["ops"]
    return (op["k"] == "obs" and not top) or any(_has_inner_obs(o, False) for o in kids)


def run(c):
    op, v = c["op"], B.values(c["values"], c["vf"])
    scale = 1.0 + sum(abs(float(x)) for x in c["values"].values())
    o = B.sut(B.op, op)
    s1, s2 = B.state(c["s1"]), B.state(c["s2"])
    r1, r2 = ref.state(c["s1"]), ref.state(c["s2"])
    if not _has_inner_obs(op):
        # an Observable nested in a composite returns its expectation value when called
        w1, w2 = ref.apply_op(r1, op, c["values"]), ref.apply_op(r2, op, c["values"])
        B.check_state(_apply(o, op, s1, v), False, w1, "composite applied to a state", 1e-8)
        z1, z2 = complex(*c["z"][:2]), complex(*c["z"][2:])
        got = _apply(o, op, jnp.asarray(z1 * r1 + z2 * r2), v)
        B.check_state(got, False, z1 * w1 + z2 * w2, "linearity in the state", 1e-8)
    qs = ref.support(op)
    m = B.asarr(B.sut(o.tensor, v))
    B.same(m, ref.matrix_on(op, qs, c["values"]), "matrix of the composite", 1e-8)
    # an observable returns its expectation value
    h = B.sut(B.op, c["herm"])
    want = ref.expval(False, r1, c["herm"], c["hvalues"])
    B.same(B.sut(h, s1, B.values(c["hvalues"], c["vf"])), np.float64(want), "observable called on a state", 1e-8)
    f = B.sut(h.forward, s1, B.values(c["hvalues"], c["vf"]))
    B.check_state(f, False, ref.apply_op(r1, c["herm"], c["hvalues"]), "observable applied to a state", 1e-8)
