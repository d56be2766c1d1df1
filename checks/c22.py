"""C22: calls do not change their inputs, and repeating a call in any history gives the same result."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.composite import OpSequence
from horqrux.differentiation.gpsr import analytical_gpsr_bwd, finite_shots_gpsr_backward
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.utils.operator_utils import DensityMatrix, DiffMode, density_mat, probabilities

RESPELL = True
EXAMPLES = {"quick": 880, "thorough": 11000}
RULE = (
    "histories of 3-9 calls (run, sample, expectation in every mode with and without shots, gradients, backward functions, "
    "matrices, conversions, parameter queries, jit and vmap over arguments and over closures, calls with default arguments, "
    "calls on another register) over a shared pool of two circuits, two sets of observables, two dictionaries of values "
    "(floats, JAX or NumPy scalars; the user changes them between calls) and a growing list of states (results are used as "
    "inputs of later calls); "
    "every result is compared with the reference, every object of the pool must look and act as before after every "
    "call, and the first call repeated at the end gives the same result. Non-trivial: at least three different calls"
)
ASSUMPTIONS = ["circuits of at most 5 gates on 1-3 qubits"]
CALLS = [
    ("run", 6), ("sample", 2), ("expect", 4), ("shots", 2), ("grad", 2), ("tensor", 1), ("convert", 2), ("query", 1), ("jit", 1),
    ("apply", 4), ("density", 1), ("obs", 3), ("defaults", 1), ("gradshots", 1), ("jitclosure", 2), ("jitexp", 1), ("vmap", 1),
    ("bwd", 2), ("bwdshots", 2), ("set", 2), ("other", 1), ("single", 1),
]


@st.composite
def _case(draw, tier):
    n = draw(gen.weighted((1, 1), (2, 4), (3, 2)))
    names = gen.NAMES[:2]
    noisy = draw(st.integers(0, 4)) == 0
    dm = draw(st.integers(0, 3)) == 0
    circuits = [
        gen.circuit(draw, n, 1, 5, nest=1, empty=False, names=names, noise=noisy and i == 0, max_controls=1) for i in range(2)
    ]
    from c11 import _uncontrol

    for c in circuits:
        _uncontrol(c)
        c["fparams"] = draw(st.sampled_from([[], ["a"]]))
    # the second set has named coefficients
    obs = [gen.observables(draw, n, 1, 2, max_terms=2, names=names if i else None) for i in range(2)]
    states = [gen.density(draw, n) if dm and i == 0 else gen.pure(draw, n) for i in range(2)]
    values = [{k: draw(gen.SMOOTH) for k in (names if i else reversed(names))} for i in range(2)]
    steps = []
    for _ in range(draw(st.integers(3, 9))):
        if steps and draw(st.integers(0, 3)) == 0:
            # an earlier call again, possibly with other values or another state
            x = dict(draw(st.sampled_from(steps)))
            x["v"] = draw(st.integers(0, 1))
            x["s"] = draw(st.integers(0, 5))
            x["x"] = draw(gen.SMOOTH)
            steps.append(x)
            continue
        steps.append(
            {
                "do": draw(gen.weighted(*CALLS)),
                "c": draw(st.integers(0, 1)),
                "o": draw(st.integers(0, 1)),
                "v": draw(st.integers(0, 1)),
                "s": draw(st.integers(0, 5)),
                "mode": draw(st.sampled_from(["ad", "gpsr", "adjoint"])),
                "key": draw(st.integers(0, 3)),
                "keep": draw(st.booleans()),
                "x": draw(gen.SMOOTH),
            }
        )
    form = [draw(st.sampled_from(["jax", "jax", "float", "np"])) for _ in range(2)]
    return {"n": n, "circuits": circuits, "obs": obs, "states": states, "values": values, "form": form, "steps": steps}


strategy = _case


def nontrivial(c):
    return len({s["do"] for s in c["steps"]}) >= 3


def labels(c):
    out = ["call=" + s["do"] for s in c["steps"]] + [f"n={c['n']}"]
    if any(ref.is_dm(s) for s in c["states"]):
        out.append("density matrix")
    if ref.has_noise(c["circuits"][0]):
        out.append("noisy")
    out += ["values as " + f for f in c["form"]]
    return out


FORMS = {"jax": jnp.asarray, "float": float, "np": lambda x: np.array(x, dtype=float)}


class World:
    def __init__(self, c):
        self.c = c
        self.n = c["n"]
        self.circ = [B.sut(B.op, x) for x in c["circuits"]]
        self.obs = [[B.sut(B.op, o) for o in x] for x in c["obs"]]
        self.form = [FORMS[f] for f in c["form"]]
        self.values = [{k: f(x) for k, x in v.items()} for f, v in zip(self.form, c["values"])]
        self.vals = copy.deepcopy(c["values"])
        self.gates = [list(iter(x)) for x in self.circ]
        # sparse copies are objects of the pool like any other
        self.sparse = [to_sparse(x) for x in self.circ]
        self.sparse_obs = [[to_sparse(o) for o in x] for x in self.obs]
        self.sequences = [OpSequence(list(x.operations)) for x in self.circ + self.sparse]
        self.states = [B.state(s) for s in c["states"]]
        self.refs = [(ref.is_dm(s), ref.state(s)) for s in c["states"]]
        self.look0 = self.look()

    def look(self):
        """What a user can see of the circuits, observables and values."""
        return (
            [
                (x.n_qubits, tuple(x.fparams), sorted(x.param_names), x.qubit_support, [describe(g) for g in x])
                for x in self.circ
            ],
            [[(o.qubit_support, str(jax.tree_util.tree_structure(o))) for o in x] for x in self.obs],
            [[(k, type(x), float(x)) for k, x in v.items()] for v in self.values],
            [(len(g), [describe(h) for h in g]) for g in self.gates],
            [[id(o) for o in x] for x in self.obs],
            [[describe(g) for g in x] for x in self.sparse + self.sequences],
            [[[describe(g) for g in leaves(o)] for o in x] for x in self.obs + self.sparse_obs],
        )

    def unchanged(self, what):
        B.need(self.look() == self.look0, lambda: f"{what} changed a circuit, an observable or the values: {self.look()} was {self.look0}")
        for i, (s, (dens, r)) in enumerate(zip(self.states, self.refs)):
            B.need(isinstance(s, DensityMatrix) == dens, lambda: f"{what} changed the kind of state {i}")
            a = B.array(s)
            B.need(a.shape == r.shape, lambda: f"{what} changed the shape of state {i} to {a.shape}")
            B.same(a, r, f"state {i} after {what}", 1e-8)

    def evolve(self, s, circuit, vals):
        dens, r = s
        if dens:
            return True, ref.dm_apply(r, circuit, vals)
        if ref.has_noise(circuit):
            return True, ref.dm_apply(ref.to_dm(r), circuit, vals)
        return False, ref.apply_op(r, circuit, vals)

    def step(self, x, check=True):
        c, do = self.c, x["do"]
        i = x["s"] % len(self.states)
        s, rs = self.states[i], self.refs[i]
        circ, spec = self.circ[x["c"]], c["circuits"][x["c"]]
        obs, ospec = self.obs[x["o"]], c["obs"][x["o"]]
        v, rv = self.values[x["v"]], self.vals[x["v"]]
        if do == "set":
            # the user changes a value in the dictionary
            name = sorted(rv)[x["key"] % len(rv)]
            rv[name] = x["x"]
            v[name] = self.form[x["v"]](x["x"])
            self.look0 = self.look()
            return None
        key = B.key(x["key"])
        mode = x["mode"]
        if mode == "adjoint" and (rs[0] or ref.has_noise(spec)):
            mode = "ad"
        if do in ("shots", "gradshots") and mode == "adjoint":
            mode = "gpsr"
        if do in ("bwd", "bwdshots", "gradshots") or (do == "grad" and mode == "gpsr"):
            # the shift rule is about the parameters of the circuit
            obs, ospec = self.obs[0], c["obs"][0]

        def after():
            dens, arr = self.evolve(rs, spec, rv)
            return dens, arr, np.array([ref.expval(dens, arr, o, rv) for o in ospec])

        if do in ("run", "jit", "apply", "jitclosure", "vmap"):
            if do == "run":
                out = B.sut(horqrux.run, circ, s, v)
            elif do == "jitclosure":
                out = B.sut(jax.jit(lambda s, v: horqrux.run(circ, s, v)), s, v)
            elif do == "vmap":
                batch = {k: jnp.stack([jnp.asarray(a), jnp.asarray(a) + 1.0]) for k, a in v.items()}
                out = B.sut(jax.vmap(lambda v: horqrux.run(circ, s, v)), batch)
                out = jax.tree_util.tree_map(lambda a: a[0], out)
            elif do == "jit":
                out = B.sut(jax.jit(lambda c, s, v: c(s, v)), circ, s, v)
            else:
                out = B.sut(horqrux.apply_gates, s, self.gates[x["c"]], v, group_gates=x["keep"])
            dens, arr, _ = after()
            if check:
                B.check_state(out, dens, arr, do, 1e-8)
                if x["keep"] and len(self.states) < 6:
                    self.states.append(out)
                    self.refs.append((dens, arr))
            return B.array(out)
        if do == "sample":
            out = B.sut(horqrux.sample, s, circ, v, 30)
            dens, arr, _ = after()
            p = ref.probs(dens, arr)
            B.need(sum(out.values()) == 30, "wrong number of shots")
            B.need(all(p[int(k, 2)] > 1e-12 for k in out), "an outcome of probability zero was sampled")
            return {k: int(m) for k, m in out.items()}
        if do == "expect":
            out = B.sut(horqrux.expectation, s, circ, obs, v, diff_mode=DiffMode(mode))
            B.same(out, after()[2], f"expectation ({mode})", 1e-8)
            return B.asarr(out)
        if do == "jitexp":
            out = B.sut(jax.jit(lambda v: horqrux.expectation(s, circ, obs, v)), v)
            B.same(out, after()[2], "compiled expectation", 1e-8)
            return B.asarr(out)
        if do in ("bwd", "bwdshots"):
            gates = self.gates[x["c"]]
            if do == "bwd":
                out = B.asarr(B.sut(analytical_gpsr_bwd, s, gates, obs, v))
                B.same(out, self.grad(rs, spec, ospec, rv, list(rv)), "analytical_gpsr_bwd", 1e-7)
            else:
                out = B.asarr(B.sut(finite_shots_gpsr_backward, s, gates, obs, v, 20, key))
                B.need(out.shape == (len(rv),) and np.all(np.isfinite(out)), f"gradient {out}")
            return out
        if do == "single":
            out = [B.array(B.sut(g._unitary, v)) for g in self.gates[x["c"]]]
            for a, g in zip(out, ref.flat(spec)):
                B.same(a, ref.gate_matrix(g, rv), "matrix of a gate", 1e-8)
            return np.concatenate([np.ravel(a) for a in out])
        if do == "other":
            # a larger register in between
            m = self.n + 1
            other = horqrux.QuantumCircuit(m, [horqrux.X(m - 1), horqrux.X(0, m - 1)])
            out = B.sut(horqrux.run, other, horqrux.zero_state(m))
            want = np.zeros((2,) * m, complex)
            want[(1,) + (0,) * (m - 2) + (1,)] = 1
            B.same(B.array(out), want, "run of another circuit", 1e-8)
            return B.array(out)
        if do == "shots":
            out = B.asarr(B.sut(horqrux.expectation, s, circ, obs, v, diff_mode=DiffMode(mode), n_shots=50, key=key))
            B.need(out.shape == (len(obs),) and np.all(np.isfinite(out)), f"estimates {out}")
            return out
        if do in ("grad", "gradshots"):
            kw = {"diff_mode": DiffMode(mode)}
            if do == "gradshots":
                kw = {"diff_mode": DiffMode.GPSR, "n_shots": 50, "key": key}
            out = B.sut(jax.grad(lambda v: jnp.sum(horqrux.expectation(s, circ, obs, v, **kw))), v)
            names = sorted(rv)
            B.need(set(out) == set(names), "gradient with other names")
            out = np.array([B.asarr(out[k]) for k in names])
            if do == "grad":
                B.same(out, self.grad(rs, spec, ospec, rv, names), f"gradient ({mode})", 1e-7)
            return out
        if do == "tensor":
            out = B.asarr(B.sut(circ.tensor, v, tuple(range(self.n))))
            B.same(out, ref.matrix(spec, self.n, rv), "matrix of the circuit", 1e-8)
            return out
        if do == "obs":
            out = [B.asarr(B.sut(o.tensor, v)) for o in obs]
            for a, o in zip(out, ospec):
                B.same(a, ref.matrix_on(o, ref.support(o), rv), "matrix of an observable", 1e-8)
            return np.concatenate([a.ravel() for a in out])
        if do == "convert":
            sp = self.sparse[x["c"]] if x["keep"] else B.sut(to_sparse, circ)
            de = B.sut(to_dense, sp)
            for o in self.sparse_obs[x["o"]] if x["keep"] else [B.sut(to_sparse, o) for o in obs]:
                B.sut(to_dense, o)
            for o in self.sequences:
                B.sut(to_dense, o)
                B.sut(to_sparse, o)
            for o in obs:
                B.sut(to_dense, o)
            B.sut(to_dense, circ)
            out = B.sut(horqrux.run, de, s, v)
            dens, arr, _ = after()
            B.check_state(out, dens, arr, "circuit converted to sparse and back", 1e-8)
            return B.array(out)
        if do == "query":
            q = (sorted(circ.vparams), circ.n_vparams, sorted(circ.param_names), circ.qubit_support, len(list(iter(circ))))
            for g in circ:
                repr(g), g.name, g.qubit_support
            td = jax.tree_util.tree_structure(circ)
            jax.tree_util.tree_unflatten(td, [])
            # what a user does with an answer must not change the circuit
            for names in (circ.vparams, circ.param_names):
                if isinstance(names, set):
                    names.add("zzz")
            return q
        if do == "density":
            out = B.sut(density_mat, s)
            want = rs[1] if rs[0] else ref.to_dm(rs[1])
            B.check_state(out, True, want, "density_mat", 1e-8)
            d = 2**self.n
            p = B.sut(probabilities, DensityMatrix(out.array.reshape(d, d)) if rs[0] else s)
            B.same(p, ref.probs(*rs), "probabilities", 1e-8)
            return B.array(out)
        # defaults: calls without values leave nothing behind
        X = horqrux.QuantumCircuit(self.n, [horqrux.X(0)])
        out = B.sut(horqrux.run, X, s)
        op = {"k": "circ", "ops": [{"g": "X", "t": [0]}]}
        dens, arr = self.evolve(rs, op, {})
        B.check_state(out, dens, arr, "run without values", 1e-8)
        try:
            named = horqrux.QuantumCircuit(self.n, [horqrux.RX("a", 0)])
            horqrux.run(named, s)
        except Exception:
            pass
        else:
            B.fail("a named angle without a value was accepted")
        return B.array(out)

    def grad(self, rs, spec, ospec, rv, names):
        dens, r = rs
        st_ = r if dens else ref.to_dm(r)
        gates = ref.flat(spec)
        out = np.zeros(len(names))
        for a, name in enumerate(names):
            for i, g in enumerate(gates):
                if g["g"] in ref.PARAM and g["p"] == name:
                    x = st_
                    for j, h in enumerate(gates):
                        x = ref._apply_lin(x, h, rv, True, "d" if i == j else None)
                    out[a] += sum(ref.expval(True, x, o, rv) for o in ospec)
        dens, arr = self.evolve(rs, spec, rv)
        for a, name in enumerate(names):
            out[a] += sum(ref._obs_deriv(dens, arr, o, rv, name) for o in ospec)
        return out


def leaves(o):
    """The gates in a (nested) sequence."""
    if isinstance(o, OpSequence):
        return [g for x in o.operations for g in leaves(x)]
    return [o]


def describe(g):
    return (type(g).__name__, repr(g), repr(g.noise), bool(g.sparse), bool(g.is_parametric))


def run(c):
    w = World(c)
    first = None
    for k, x in enumerate(c["steps"]):
        out = w.step(x)
        if k == 0:
            first = out
        w.unchanged(f"call {k} ({x['do']})")
    x = dict(c["steps"][0])
    x["s"] = x["s"] % len(c["states"])  # the state of the first call
    if x["do"] == "set":
        return
    # with the values of the first call
    for f, now, vals in zip(w.form, w.values, c["values"]):
        now.update({k: f(a) for k, a in vals.items()})
    w.vals = copy.deepcopy(c["values"])
    again = w.step(x, check=False)
    same = np.array_equal(first, again) if isinstance(first, np.ndarray) else first == again
    if isinstance(first, np.ndarray) and not same and c["steps"][0]["do"] not in ("shots", "gradshots"):
        same = ref.close(again, first, 1e-12, 1e-12)
    B.need(same, lambda: f"the first call ({x['do']}) repeated at the end gives {again} instead of {first}")
