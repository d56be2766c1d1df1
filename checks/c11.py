"""C11: parameter-shift (GPSR) gradients of exact expectation values equal the exact derivative."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from c10 import case_, compare, repeated
from horqrux.differentiation.gpsr import analytical_gpsr_bwd
from horqrux.utils.operator_utils import DiffMode

RESPELL = True
EXAMPLES = {"quick": 420, "thorough": 6000}
RULE = (
    "circuits of 1-20 gates on 1-4 qubits with up to 14 named RX/RY/RZ/PHASE angles (repeated and shared between gate kinds, "
    "controlled PHASE, values listed in any order, unused values), pure, mixed and noisy evolution, 1-6 observables; "
    "gradient, jacobians, jvp and hessian of the GPSR mode, and the backward function, compared with the exact "
    "derivative from the reference. Non-trivial: at least two gates and a named parameter"
)
ASSUMPTIONS = [
    "gradients with respect to circuit parameters (GPSR does not differentiate observable coefficients)",
    "named angles of controlled RX/RY/RZ are the known finding C11-controlled-rotation: there the outcome must be "
    "either exact or exactly the single-gap shift rule",
]
KNOWN = "C11-controlled-rotation"


@st.composite
def _case(draw, tier):
    ctl = draw(st.integers(0, 9))
    c = draw(
        case_(
            tier,
            pool=["X", "H", "S", "Z", "NOT", "SWAP", "ISWAP"] + ["RX", "RY", "RZ", "PHASE"] * 4,
            obs_names=False,
            control_weight=30,
            max_gates=6,
        )
    )
    if ctl > 0:
        # uncontrol the named rotations (known finding), except in a tenth of the cases
        _uncontrol(c["circuit"])
    c["how"] = draw(gen.weighted(("grad", 5), ("bwd", 5), ("jacrev", 1), ("jacfwd", 2), ("jvp", 2), ("hessian", 1 if len(c["values"]) < 7 else 0)))
    if c["how"] == "bwd":
        c["weights"] = [1.0] * len(c["obs"])
    c["vf"] = draw(st.sampled_from(["jnp", "jnp", "float"])) if c["how"] in ("bwd", "grad") else "jnp"
    return c


def _uncontrol(op):
    if "g" in op:
        if op["g"] in ref.ROT and isinstance(op["p"], str):
            op.pop("c", None)
    else:
        for o in op["ops"]:
            _uncontrol(o)


strategy = _case


def nontrivial(c):
    return len(ref.flat(c["circuit"])) >= 2


def controlled_rotation(c):
    return [
        g["p"]
        for g in ref.flat(c["circuit"])
        if g["g"] in ref.ROT and g.get("c") and isinstance(g["p"], str)
    ]


def labels(c):
    out = ["how=" + c["how"], f"n={c['n']}", f"parameters={len(c['values'])}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    if repeated(c):
        out.append("repeated parameter")
    if "unused" in c["values"]:
        out.append("unused value")
    if controlled_rotation(c):
        out.append("controlled rotation")
    return out


def shift_rule(c, values, wrong):
    """Shift rule per gate; rotations in controlled gates with a single gap (the known finding)."""
    names = list(c["values"])
    gates = ref.flat(c["circuit"])
    out = np.zeros((len(names), len(c["obs"])))

    def e(gs):
        dens, arr = ref.evolve(c["state"], {"k": "circ", "ops": gs}, values)
        return np.array([ref.expval(dens, arr, o, values) for o in c["obs"]])

    for a, name in enumerate(names):
        for i, g in enumerate(gates):
            if g["g"] in ref.PARAM and g["p"] == name:
                gap = 2.0
                if g["g"] in ref.ROT and g.get("c"):
                    gap = wrong
                up = gates[:i] + [{**g, "p": values[name] + math.pi / 2}] + gates[i + 1 :]
                dn = gates[:i] + [{**g, "p": values[name] - math.pi / 2}] + gates[i + 1 :]
                out[a] += gap * (e(up) - e(dn)) / (4 * math.sin(gap * math.pi / 4))
    return out


def run(c):
    try:
        _run(c, lambda v: ref.grad(c["state"], c["circuit"], c["obs"], v, list(c["values"])))
    except B.Violation:
        if not controlled_rotation(c):
            raise
        wrong = 1.0 if repeated(c) else 2.0
        _run(c, lambda v: shift_rule(c, v, wrong))
        return KNOWN
    return None


def _run(c, gradfn):
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s = B.state(c["state"])
    want = gradfn(c["values"])
    names = list(c["values"])
    w = np.array(c["weights"])
    v = B.values(c["values"], c["vf"])
    what = f"{c['how']} of GPSR"
    if c["how"] == "bwd":
        gates = [B.op(g) for g in ref.flat(c["circuit"])]
        got = B.sut(analytical_gpsr_bwd, s, gates, obs, v)
        B.same(got, want.sum(axis=1), "GPSR backward function, parameters in the order of the values", 1e-7)
        return

    def f(v):
        return horqrux.expectation(s, circ, obs, v, diff_mode=DiffMode.GPSR)

    compare(c, f, v, names, want, w, what, gradfn)
