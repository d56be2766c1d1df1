"""C21: circuits report their parameters, qubits and gates faithfully; hea builds the documented ansatz."""
import collections
import copy

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.circuit import QuantumCircuit, hea
from horqrux.composite import Add, OpSequence
from horqrux.primitives import parametric as para

RESPELL = True
EXAMPLES = {"quick": 3000, "thorough": 40000}
RULE = (
    "circuits, nested sequences and sums of gates on arbitrary labels up to 69 with repeated, shared, numeric and fixed "
    "angles, targets and controls given as int, tuple, list, numpy integer or array; parameter names, variational "
    "parameters and their number, qubit support and its order, iteration in application order, names and sizes of "
    "gates, independence of circuits built separately; hea with random sizes, rotations and prefix: rotations and "
    "entangling ring per layer, unique prefixed names, and its result on a state. Non-trivial: a repeated name, a "
    "numeric angle, fixed parameters, nesting or hea with two qubits"
)
ASSUMPTIONS = ["names of parameters are strings", "fixed parameters may name parameters that are not used"]


@st.composite
def _case(draw, tier):
    if draw(st.integers(0, 4)) == 0:
        big = draw(st.integers(0, 11)) == 0
        return {
            "kind": "hea",
            "n": draw(st.integers(5, 10) if big else st.integers(1, 5)),
            "layers": draw(st.integers(20, 40) if big else st.integers(0, 3)),
            "rots": draw(st.one_of(st.just(None), st.lists(st.sampled_from(["RX", "RY", "RZ", "PHASE"]), min_size=0, max_size=6))),
            "prefix": draw(st.sampled_from([None, "v_", "theta", "p", "layer_0_"])),
            "seed": draw(gen.SEED),
            "state": not big and draw(st.booleans()),
        }
    n = draw(st.integers(1, 5))
    lab = list(draw(st.permutations(range(draw(st.sampled_from([n, n + 1, 10, 70])))))[:n])
    names = gen.NAMES[: draw(st.integers(1, 6))]
    c = gen.circuit(draw, n, 0, draw(st.sampled_from([2, 6, 12])), nest=2, names=names, noise=draw(st.integers(0, 4)) == 0, forms=True)
    return {
        "kind": draw(st.sampled_from(["circ", "circ", "seq", "add"])),
        "n": n,
        "labels": lab,
        "circuit": c,
        "fparams": list(draw(st.permutations(names)))[: draw(st.integers(0, 3))] + (["other"] if draw(st.integers(0, 5)) == 0 else []),
        "form": draw(st.sampled_from(["list", "tuple", "generator"])),
    }


strategy = _case


def _names(c):
    return [g["p"] for g in ref.flat(c["circuit"]) if isinstance(g.get("p"), str)]


def nontrivial(c):
    if c["kind"] == "hea":
        return c["n"] > 1 and c["layers"] > 0
    nm = _names(c)
    return len(nm) > len(set(nm)) or bool(set(c["fparams"]) & set(nm)) or any("k" in o for o in c["circuit"]["ops"]) or any(
        isinstance(g.get("p"), float) for g in ref.flat(c["circuit"])
    )


def labels(c):
    out = ["kind=" + c["kind"], f"n={c['n']}"]
    if c["kind"] != "hea":
        nm = _names(c)
        if len(nm) > len(set(nm)):
            out.append("repeated name")
        if c["fparams"]:
            out.append("fixed parameters")
        if c["labels"] != list(range(c["n"])):
            out.append("labels not 0..n-1")
    return out


def ints(q):
    return tuple(int(x) for x in q)


def controls(g):
    q = [x for x in g.control[0] if x is not None] if isinstance(g.control[0], tuple) else []
    return ints(q)


def targets(g):
    return ints(g.target[0])


def run(c):
    if c["kind"] == "hea":
        return run_hea(c)
    op = ref.relabel(c["circuit"], dict(enumerate(c["labels"])))
    flat = ref.flat(op)
    kids = [B.sut(B.op, o) for o in op["ops"]]
    nm = set(_names(c))
    n = max(c["labels"]) + 1
    if c["kind"] == "circ":
        arg = kids if c["form"] == "list" else tuple(kids) if c["form"] == "tuple" else (k for k in kids)
        fp = list(c["fparams"])
        o = B.sut(QuantumCircuit, n, arg, fp) if fp else B.sut(QuantumCircuit, n, arg)
        B.need(o.n_qubits == n, lambda: f"n_qubits {o.n_qubits} instead of {n}")
        B.need(list(o.fparams) == fp, lambda: f"fparams {o.fparams}")
        var = nm - set(fp)
        B.need(sorted(o.vparams) == sorted(var), lambda: f"variational parameters {o.vparams} instead of {var}")
        B.need(o.n_vparams == len(var), lambda: f"n_vparams {o.n_vparams} instead of {len(var)}")
        # a circuit built separately does not share anything
        other = QuantumCircuit(n, [])
        other.fparams.append("leak")
        other.operations.append(kids[0] if kids else horqrux.X(0))
        third = QuantumCircuit(n, [])
        B.need(list(third.fparams) == [] and len(third.operations) == 0, "circuits share their fixed parameters or gates")
        B.need(sorted(o.vparams) == sorted(var), "a change of another circuit changes the variational parameters")
    else:
        o = B.sut(OpSequence if c["kind"] == "seq" else Add, kids)
        if c["kind"] == "seq":
            B.need(o.n_vparams == len(nm), lambda: f"n_vparams {o.n_vparams} instead of {len(nm)}")
    B.need(sorted(o.param_names) == sorted(nm), lambda: f"parameters {o.param_names} instead of {nm}")
    sup = tuple(sorted({q for g in flat for q in g["t"] + g.get("c", [])}))
    B.need(ints(o.qubit_support) == sup, lambda: f"qubit support {o.qubit_support} instead of {sup}")
    for rep in range(2):
        it = B.sut(lambda: list(iter(o)))
        B.need(len(it) == len(flat), lambda: f"{len(it)} gates instead of {len(flat)} (pass {rep})")
        for h, g in zip(it, flat):
            check_gate(h, g)


def check_gate(h, g):
    B.need(targets(h) == tuple(g["t"]), lambda: f"target {h.target} of {g}")
    B.need(controls(h) == tuple(g.get("c", ())), lambda: f"control {h.control} of {g}")
    sup = tuple(sorted(g["t"] + g.get("c", [])))
    B.need(ints(h.qubit_support) == sup, lambda: f"qubit support {h.qubit_support} of {g}")
    B.need(h.n_qubits == len(sup), lambda: f"n_qubits {h.n_qubits} of {g}")
    named = isinstance(g.get("p"), str)
    B.need(bool(h.is_parametric) == named, lambda: f"is_parametric {h.is_parametric} of {g}")
    if "p" in g:
        B.need(h.param == g["p"], lambda: f"param {h.param} of {g}")
    name = "X" if g["g"] == "NOT" else g["g"]
    if g["g"] not in ("SQRTSWAP", "ISQRTSWAP"):  # displayed as SQSWAP, ISQSWAP
        B.need(h.name == ("C" if g.get("c") else "") + name, lambda: f"name {h.name} of {g}")
    want = [(k, tuple(p) if isinstance(p, list) else p) for k, p in g.get("noise") or []]
    got = [(str(x.type), x.error_probability) for x in h.noise or ()]
    B.need(got == want, lambda: f"noise {got} of {g}")
    B.need(isinstance(repr(h), str), "repr")


def run_hea(c):
    n, L = c["n"], c["layers"]
    kw = {}
    rots = ["RX", "RY", "RX"]
    if c["rots"] is not None:
        rots = c["rots"]
        kw["rot_fns"] = [getattr(para, r) for r in rots]
    pre = "v_"
    if c["prefix"] is not None:
        pre = kw["variational_param_prefix"] = c["prefix"]
    before = copy.copy(kw.get("rot_fns"))
    gates = B.sut(lambda: list(hea(n, L, **kw)))
    B.need(kw.get("rot_fns") == before, "hea changes the list of rotations it is given")
    rot = [g for g in gates if g.is_parametric]
    ent = [g for g in gates if not g.is_parametric]
    nm = [g.param for g in rot]
    B.need(len(set(nm)) == len(nm), "hea repeats a parameter name")
    B.need(all(isinstance(x, str) and x.startswith(pre) and len(x) > len(pre) for x in nm), lambda: f"names {nm[:3]} without prefix {pre}")
    B.need(len(rot) == n * L * len(rots), lambda: f"{len(rot)} rotations for {n} qubits, {L} layers, {len(rots)} rotations each")
    for q in range(n):
        seq = [g.name for g in rot if targets(g) == (q,)]
        B.need(seq == rots * L, lambda: f"rotations {seq} on qubit {q} instead of {rots} in each of {L} layers")
    B.need(all(controls(g) == () for g in rot), "hea has controlled rotations")
    edges = collections.Counter((controls(g), targets(g), g.name) for g in ent)
    ring = {((i,), ((i + 1) % n,), "CX") for i in range(n)} if n > 1 and L else set()
    B.need(set(edges) == ring, lambda: f"entangling gates {set(edges)} instead of {ring}")
    B.need(len(set(edges.values())) <= 1, lambda: f"entangling gates used unequally: {edges}")
    if ring:
        B.need(min(edges.values()) >= L, lambda: f"{edges} for {L} layers")
    circ = B.sut(QuantumCircuit, n, gates)
    B.need(circ.n_vparams == len(rot), lambda: f"n_vparams {circ.n_vparams}")
    again = [g.param for g in hea(n, L, **kw) if g.is_parametric]
    B.need(not set(again) & set(nm), "two ansatze share parameter names")
    if c["state"] and gates:
        # the ansatz acts as the sequence of its gates
        r = np.random.RandomState(c["seed"])
        vals = {x: float(r.uniform(-3, 3)) for x in nm}
        spec = {"n": n, "kind": "haar", "seed": c["seed"]}
        ops = []
        for g in gates:
            if g.is_parametric:
                ops.append({"g": g.name, "t": list(targets(g)), "p": g.param})
            else:
                ops.append({"g": "NOT", "t": list(targets(g)), "c": list(controls(g))})
        want = ref.apply_seq(ref.state(spec), ops, vals)
        B.same(B.sut(horqrux.run, circ, B.state(spec), {k: jnp.asarray(x) for k, x in vals.items()}), want, "hea on a state")
