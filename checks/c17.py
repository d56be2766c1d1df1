"""C17: gates, composites, circuits and density matrices survive the pytree machinery of JAX unchanged."""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from c08 import _has_inner_obs
from c15 import _tree
from horqrux.utils.operator_utils import DensityMatrix

RESPELL = True
EXAMPLES = {"quick": 1500, "thorough": 20000}
RULE = (
    "random gates (controls in every accepted form, noise, sparse flag, named and numeric angles), circuits with fixed "
    "parameters, nested sequences, Scale/Add/Observable trees, noise channels, gates shifted by the parameter-shift rule and density matrices; flatten/unflatten, tree_map and "
    "copies act as the original, two equal builds share a tree structure (and hash), a build that differs in one gate, "
    "qubit, angle, channel, probability, order or factor, by as little as 1e-6, does not, and one jitted function given different circuits in turn returns each "
    "circuit's own result. Non-trivial: an object with a control, a parameter, noise or several gates"
)
ASSUMPTIONS = ["gates and circuits hold no array leaves: angles are names or Python numbers"]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 1), (2, 4), (3, 4), (4, 1)))
    names = gen.NAMES[:3]
    kind = draw(gen.weighted(("object", 16), ("dm", 2), ("jit", 4), ("noise", 3), ("shift", 2)))
    out = {"kind": kind, "n": n}
    if kind == "dm":
        return {**out, "state": gen.density(draw, n), "gate": gen.gate(draw, n, params="numeric")}

    if kind == "noise":
        return {**out, "noise": draw(gen.noises()), "state": gen.anystate(draw, n), "qubit": draw(st.integers(0, n - 1))}
    if kind == "shift":
        g = gen.gate(draw, n, names=names, pool=ref.PARAM, noise=True)
        return {**out, "state": gen.pure(draw, n), "gate": g, "by": draw(gen.angles()), "values": gen.values_for(draw, gen.used_names(g, set(names)))}

    def one():
        r = draw(st.integers(0, 5))
        if r == 0:
            return gen.gate(draw, n, names=names, noise=True, forms=True)
        if r < 4:
            c = gen.circuit(draw, n, 1, draw(st.integers(1, 5)), nest=2, names=names, noise=draw(st.booleans()), forms=True)
            c["fparams"] = draw(st.permutations(names))[: draw(st.integers(0, 3))]
            if hams is not None:
                gen.add_ham(draw, c["ops"], hams, n, 30, 1)
            return c
        return _tree(draw, n, 2, names, 3)

    hams = {} if kind == "object" else None
    op = one()
    used = gen.used_names(op, set(names))
    out.update(op=op, state=gen.pure(draw, n), values={**gen.values_for(draw, used), **(hams or {})})
    if kind == "jit":
        out["more"] = [one() if draw(st.booleans()) else _mutate(draw, op, n) for _ in range(draw(st.integers(1, 2)))]
    else:
        out["mutant"] = _mutate(draw, op, n)
        out["sparse"] = draw(st.integers(0, 3)) == 0
    return out


def _nearby(channel, d):
    """The channel with another probability."""
    k, p = channel
    q = list(p) if isinstance(p, (list, tuple)) else [p]
    if sum(q) + d <= 1:
        q[0] = q[0] + d
    else:
        i = q.index(max(q))
        q[i] = q[i] - d
    return [k, q if isinstance(p, (list, tuple)) else q[0]]


# differences between two operations may be small
STEP = st.sampled_from([0.5, 1.0, -1.0, 1e-3, 1e-6, -1e-6])


def _mutate(draw, op, n):
    """A copy of op with one change that makes it another operation."""
    op = copy.deepcopy(op)
    gs = []

    def collect(o):
        if "g" in o:
            gs.append(o)
            return
        if o["k"] == "scale":
            gs.append(o)
            collect(o["ops"])
        else:
            for x in o["ops"]:
                collect(x)

    collect(op)
    if not gs:
        return op
    g = gs[draw(st.integers(0, len(gs) - 1))]
    if "g" not in g:
        g["by"] = "b" if g["by"] == "a" else "a" if isinstance(g["by"], str) else g["by"] + draw(STEP)
        return op
    if op.get("k") == "circ" and draw(st.integers(0, 7)) == 0:
        # other fixed parameters
        f = list(op.get("fparams", []))
        op["fparams"] = f[1:] if f else ["a"]
        return op
    if op.get("k") in ("circ", "seq", "add", "obs") and draw(st.integers(0, 5)) == 0:
        op["ops"] = op["ops"][::-1] if draw(st.booleans()) else op["ops"][1:] + op["ops"][:1]
        return op
    free = [q for q in range(n) if q not in g["t"] + g.get("c", [])]
    choices = ["kind"]
    if "p" in g:
        choices += ["angle"] * 2
    if free:
        choices += ["target"]
        if g.get("c"):
            choices += ["control"] * 2
    if g.get("c"):
        choices += ["uncontrol"] * 2
    if g.get("noise"):
        choices += ["noise"] * 3
    how = draw(st.sampled_from(choices))
    if how == "kind":
        pool = [x for x in (ref.TWO if g["g"] in ref.TWO else ref.ROT + ("PHASE",) if g["g"] in ref.PARAM else ("X", "Y", "Z", "H", "S", "T", "I")) if x != g["g"] and not (g["g"] == "NOT" and x == "X")]
        g["g"] = draw(st.sampled_from(pool))
    elif how == "angle":
        if isinstance(g["p"], str):
            g["p"] = "b" if g["p"] == "a" else "a"
        elif g["p"] and draw(st.integers(0, 3)) == 0:
            g["p"] = -g["p"]
        else:
            g["p"] = g["p"] + draw(STEP)
    elif how == "target":
        g["t"] = [free[0]] + g["t"][1:]
    elif how == "control":
        g["c"] = [free[0]] + g["c"][1:]
    elif how == "uncontrol":
        del g["c"]
    else:
        k, p = g["noise"][0]
        m = draw(st.integers(0, 3))
        if m == 0:
            g["noise"] = g["noise"][1:]
        elif m == 1:
            g["noise"] = [["BitFlip" if k != "BitFlip" else "PhaseFlip", 0.3]] + g["noise"][1:]
        elif m == 2 and len(g["noise"]) > 1:
            g["noise"] = g["noise"][::-1]
        else:
            # another probability, possibly a close one
            g["noise"] = [_nearby(g["noise"][0], draw(st.sampled_from([0.1, 1e-3, 1e-6, 1e-6])))] + g["noise"][1:]
    return op


strategy = _case


def _canon(op):
    """What makes two operations equal, however their qubits were written."""
    if "g" in op:
        name = {"NOT": "X"}.get(op["g"], op["g"])
        return [name, list(op["t"]), list(op.get("c") or []), op.get("p"), [[k, np.ravel(p).tolist()] for k, p in op.get("noise") or []]]
    if op["k"] == "scale":
        return ["scale", op["by"], _canon(op["ops"])]
    return [op["k"], op.get("n"), list(op.get("fparams") or []), [_canon(x) for x in op["ops"]]]


def nontrivial(c):
    if c["kind"] != "object":
        return True
    fl = ref.flat(c["op"])
    return len(fl) > 1 or bool(fl and (fl[0].get("c") or fl[0].get("p") or fl[0].get("noise")))


def labels(c):
    out = ["kind=" + c["kind"]]
    if "op" in c:
        out.append("root=" + c["op"].get("k", "gate"))
        if ref.has_noise(c["op"]):
            out.append("noisy")
    return out


def act(c, o, op, what):
    if _has_inner_obs(op):
        return
    f = o.forward if op.get("k") == "obs" else o
    v = B.values(c["values"])
    if "g" in op or op["k"] in ("seq", "circ"):
        dens, want = ref.evolve(c["state"], op, c["values"])
    else:
        dens, want = False, ref.apply_op(ref.state(c["state"]), op, c["values"])
    B.check_state(B.sut(f, B.state(c["state"]), v), dens, want, what, 1e-8)


def attrs(o, what):
    out = {"qubit_support": o.qubit_support, "type": type(o).__name__}
    if hasattr(o, "operations"):
        out["param_names"] = set(o.param_names)
    if hasattr(o, "fparams"):
        out.update(fparams=list(o.fparams), n_qubits=o.n_qubits, vparams=set(o.vparams), n_vparams=o.n_vparams)
    if hasattr(o, "parameter"):
        out["parameter"] = o.parameter
    if hasattr(o, "generator_name"):
        out.update(target=o.target, control=o.control, noise=o.noise, sparse=o.sparse, name=o.name, n_qubits=o.n_qubits)
    return out


def run(c):
    tu = jax.tree_util
    if c["kind"] == "dm":
        s = B.state(c["state"])
        leaves, td = B.sut(tu.tree_flatten, s)
        B.need(len(leaves) == 1, lambda: f"a density matrix has {len(leaves)} leaves")
        back = B.sut(tu.tree_unflatten, td, leaves)
        B.need(isinstance(back, DensityMatrix), "unflatten of a density matrix")
        r = ref.state(c["state"])
        B.same(B.array(back), r, "density matrix after flatten/unflatten", 0, 0)
        B.same(B.array(B.sut(tu.tree_map, lambda a: 2 * a, s)), 2 * r, "tree_map over a density matrix")
        g = B.gate(c["gate"])
        want = ref.dm_apply(r, c["gate"], {})
        B.same(B.array(B.sut(lambda x: g(x), back)), want, "gate on the rebuilt density matrix", 1e-8)
        return
    if c["kind"] == "noise":
        r = ref.state(c["state"])
        rho = ref.dm_noise(r if ref.is_dm(c["state"]) else ref.to_dm(r), c["noise"], c["qubit"])
        ns = B.noise(c["noise"])
        leaves, td = B.sut(tu.tree_flatten, ns)
        B.need(len(leaves) == 0, lambda: f"a channel has {len(leaves)} leaves")
        same = B.sut(tu.tree_structure, B.noise(c["noise"]))
        B.need(same == td and hash(same) == hash(td), "two equal channels have different tree structures")
        for d in (0.1, 1e-3, 1e-6):
            near = [_nearby(c["noise"][0], d)] + c["noise"][1:]
            other = B.sut(tu.tree_structure, B.sut(lambda: horqrux.I(0, noise=B.noise(near))))
            this = B.sut(tu.tree_structure, B.sut(lambda: horqrux.I(0, noise=B.noise(c["noise"]))))
            B.need(other != this, lambda: f"gates with noise {near} have the same tree structure")
        for how, x in {"flatten/unflatten": B.sut(tu.tree_unflatten, td, leaves), "tree_map": B.sut(tu.tree_map, lambda a: a, ns)}.items():
            B.need(x == ns, lambda: f"channels {ns} are {x} after {how}")
            B.need([len(a.kraus) for a in x] == [len(a.kraus) for a in ns], lambda: f"Kraus operators of {ns} after {how}")
            got = B.sut(lambda: horqrux.I(c["qubit"], noise=x)(B.state(c["state"])))
            B.same(B.array(got), rho, f"channels after {how}", 1e-8)
        return
    if c["kind"] == "shift":
        # a gate shifted by the parameter-shift rule keeps its shift
        g = c["gate"]
        h = B.gate(g)
        o = B.sut(
            type(h), generator_name=h.generator_name, target=h.target[0], control=h.control[0], noise=h.noise, sparse=h.sparse, param=h.param,
            shift=c["by"],
        )
        leaves, td = B.sut(tu.tree_flatten, o)
        x = dict(g, p=ref.pval(g["p"], c["values"]) + c["by"])
        dens, want = ref.evolve(c["state"], x, {})
        v = B.values(c["values"])
        for how, h in {"": o, " after flatten/unflatten": B.sut(tu.tree_unflatten, td, leaves), " after tree_map": B.sut(tu.tree_map, lambda a: a, o)}.items():
            B.check_state(B.sut(h, B.state(c["state"]), v), dens, want, f"gate shifted by {c['by']}{how}", 1e-8)
            B.same(B.sut(h.tensor, v), ref.matrix_on(x, ref.support(x), {}), f"matrix of the gate shifted by {c['by']}{how}", 1e-8)
        return
    op = c["op"]
    sp = bool(c.get("sparse")) and not ref.has_noise(op)
    o = B.sut(B.op, op, sp)
    if c["kind"] == "jit":
        j = jax.jit(lambda o, s, v: (o.forward if hasattr(o, "forward") else o)(s, v))
        v = {k: jnp.asarray(x) for k, x in c["values"].items()}
        for i, x in enumerate([op] + c["more"] + [op]):
            if _has_inner_obs(x):
                continue
            if "g" in x or x["k"] in ("seq", "circ"):
                dens, want = ref.evolve(c["state"], x, c["values"])
            else:
                dens, want = False, ref.apply_op(ref.state(c["state"]), x, c["values"])
            got = B.sut(j, B.sut(B.op, x), B.state(c["state"]), v)
            B.check_state(got, dens, want, f"jitted function, operation number {i} it is given", 1e-8)
        return
    leaves, td = B.sut(tu.tree_flatten, o)
    B.need(len(leaves) == 0, lambda: f"an operation has {len(leaves)} leaves")
    want = attrs(o, "the operation")
    rebuilt = {
        "flatten/unflatten": B.sut(tu.tree_unflatten, td, leaves),
        "tree_map": B.sut(tu.tree_map, lambda x: x, o),
        "twice": B.sut(lambda: tu.tree_map(lambda x: x, tu.tree_unflatten(td, leaves))),
        "own methods": B.sut(lambda: type(o).tree_unflatten(*reversed(o.tree_flatten()))),
    }
    for how, x in rebuilt.items():
        got = B.sut(attrs, x, how)
        B.need(got == want, lambda: f"{how}: {got} instead of {want}")
    if not sp:
        for how in ("flatten/unflatten", "twice"):
            act(c, rebuilt[how], op, f"operation after {how}")
        act(c, o, op, "operation after it was flattened")
    # tree structure identifies the operation
    same = B.sut(tu.tree_structure, B.sut(B.op, op, sp))
    B.need(same == td, "two equal operations have different tree structures")
    B.need(B.sut(hash, same) == B.sut(hash, td), "two equal operations have tree structures with different hashes")
    if _canon(c["mutant"]) != _canon(op):
        other = B.sut(tu.tree_structure, B.sut(B.op, c["mutant"], sp))
        B.need(other != td, lambda: f"operations with the same tree structure: {c['mutant']}")
