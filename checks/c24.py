"""C24: invalid requests raise the documented exception, whatever the circuit, and change nothing."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.utils.operator_utils import DiffMode, num_qubits, probabilities

RESPELL = True
EXAMPLES = {"quick": 1700, "thorough": 20000}
RULE = (
    "negative shot numbers (AD and GPSR), sampling fewer than one shot and unknown differentiation modes raise ValueError, adjoint mode on a density "
    "matrix raises TypeError, noise on sparse states raises NotImplementedError, a missing value of a named angle or "
    "coefficient raises KeyError in run, sample, expectation, matrices and all modes, unsupported state or operation "
    "types raise NotImplementedError; on random circuits, states and observables. The smallest valid request (zero "
    "shots, one shot, the mode as a string, all values) on the same objects succeeds before and after. Non-trivial: "
    "always an invalid request"
)
ASSUMPTIONS = ["the type of the exception is part of the contract, its message is not"]
KINDS = [("shots", 3), ("mode", 2), ("adjoint", 2), ("sparse noise", 1), ("missing", 5), ("type", 2)]


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(*KINDS))
    n = draw(gen.weighted((1, 1), (2, 4), (3, 2)))
    names = gen.NAMES[:3]
    noisy = kind != "sparse noise" and draw(st.integers(0, 4)) == 0
    dm = kind == "adjoint" or (kind != "sparse noise" and draw(st.integers(0, 3)) == 0)
    if kind in ("adjoint", "sparse noise"):
        noisy = False
    c = gen.circuit(draw, n, 1, 4, nest=1, empty=False, names=names, noise=noisy, max_controls=1)
    if kind == "missing" and not gen.used_names(c):
        c["ops"].append({"g": draw(st.sampled_from(ref.PARAM)), "t": [draw(st.integers(0, n - 1))], "p": names[0]})
    obs = gen.observables(draw, n, 1, 2, max_terms=2, names=["w"] if kind == "missing" else None)
    used = gen.used_names(c)
    for o in obs:
        gen.used_names(o, used)
    out = {
        "kind": kind,
        "n": n,
        "circuit": c,
        "obs": obs,
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "values": gen.values_for(draw, used, strat=gen.SMOOTH),
    }
    if kind == "shots":
        out["shots"] = draw(st.one_of(st.sampled_from([-1, -2, -1000]), st.integers(-(10**9), -1)))
        out["mode"] = draw(st.sampled_from(["ad", "gpsr"]))
    if kind == "mode":
        out["mode"] = draw(st.sampled_from(["AD", "", "psr", "finite", "adjoin", "ad ", "GPSR", "none", "backprop"]))
        out["shots"] = draw(st.sampled_from([0, 10]))
    if kind == "sparse noise":
        g = draw(st.integers(0, len(c["ops"])))
        gate = gen.gate(draw, n, pool=["X", "H", "Z"], noise=False)
        gate["noise"] = draw(gen.noises(2))
        out["noisy"] = gate
        out["at"] = g
        c["ops"] = c["ops"][:2]
    if kind == "missing":
        out["drop"] = draw(st.sampled_from(sorted(used)))
        out["how"] = draw(st.sampled_from(["run", "sample", "expect", "expect", "expect", "tensor", "apply", "nested"]))
        out["mode"] = draw(st.sampled_from(["ad", "gpsr", "adjoint", "shots"]))
    if kind == "type":
        out["how"] = draw(st.sampled_from(["to_sparse", "to_dense", "probabilities", "num_qubits", "apply_operator", "apply_gates"]))
        out["arg"] = draw(st.sampled_from(["list", "none", "str", "int"]))
    return out


strategy = _case


def nontrivial(c):
    return True


def labels(c):
    out = ["kind=" + c["kind"]]
    if "how" in c:
        out.append("how=" + c["how"])
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    return out


def rejects(exc, what, fn):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        B.fail(f"{what} raised {type(e).__name__}: {str(e)[:200]} instead of {exc.__name__}")
    B.fail(f"{what} was accepted and gave {str(r)[:100]}")


def run(c):
    kind, n = c["kind"], c["n"]
    circ = B.sut(B.op, c["circuit"])
    obs = [B.sut(B.op, o) for o in c["obs"]]
    s, v = B.state(c["state"]), B.values(c["values"])
    dens, arr = ref.evolve(c["state"], c["circuit"], c["values"])
    want = np.array([ref.expval(dens, arr, o, c["values"]) for o in c["obs"]])

    def valid(mode="ad", **kw):
        B.same(B.sut(horqrux.expectation, s, circ, obs, v, diff_mode=mode, **kw), want, f"valid request ({mode})", 1e-8)

    if kind == "shots":
        mode = DiffMode(c["mode"])
        rejects(ValueError, f"{c['shots']} shots in mode {mode}", lambda: horqrux.expectation(s, circ, obs, v, diff_mode=mode, n_shots=c["shots"]))
        valid(mode, n_shots=0)
        for k in (0, c["shots"]):
            rejects(ValueError, f"sample with {k} shots", lambda: horqrux.sample(s, circ, v, k))
        got = B.sut(horqrux.sample, s, circ, v, 1)
        B.need(sum(got.values()) == 1, lambda: f"sample of one shot gives {got}")
        one = B.asarr(B.sut(horqrux.expectation, s, circ, obs, v, diff_mode=mode, n_shots=1))
        B.need(one.shape == (len(obs),) and np.all(np.isfinite(one)), lambda: f"one shot gives {one}")
    elif kind == "mode":
        rejects(ValueError, f"mode {c['mode']!r}", lambda: horqrux.expectation(s, circ, obs, v, diff_mode=c["mode"], n_shots=c["shots"]))
        valid("ad")
        valid("gpsr")
        if not dens:
            valid("adjoint")
    elif kind == "adjoint":
        rejects(TypeError, "adjoint mode on a density matrix", lambda: horqrux.expectation(s, circ, obs, v, diff_mode=DiffMode.ADJOINT))
        rejects(
            TypeError,
            "the gradient of adjoint mode on a density matrix",
            lambda: jax.grad(lambda x: jnp.sum(horqrux.expectation(s, circ, obs, x, diff_mode=DiffMode.ADJOINT)))(
                {k: jnp.asarray(x) for k, x in v.items()}
            ),
        )
        valid("ad")
    elif kind == "sparse noise":
        ops = [B.op(g) for g in ref.flat(c["circuit"])]
        ops.insert(min(c["at"], len(ops)), B.gate(c["noisy"]))
        noisy = B.sut(to_sparse, horqrux.QuantumCircuit(n, ops))
        sp = B.sut(to_sparse, s)
        rejects(NotImplementedError, "noise on a sparse state", lambda: horqrux.apply_gates(sp, list(iter(noisy)), v))
        rejects(NotImplementedError, "noise on a sparse state (run)", lambda: horqrux.run(noisy, sp, v))
    elif kind == "missing":
        drop, how = c["drop"], c["how"]
        less = {k: x for k, x in v.items() if k != drop}
        in_circ = drop in gen.used_names(c["circuit"])
        if not in_circ:
            how = "expect" if how != "tensor" else "tensor"
        mode, kw = c["mode"], {}
        if mode == "adjoint" and dens:
            mode = "ad"
        if mode == "shots":
            mode, kw = "ad", {"n_shots": 10}
        what = f"{how} without the value of {drop!r}"
        if how == "run":
            rejects(KeyError, what, lambda: horqrux.run(circ, s, less))
        elif how == "sample":
            rejects(KeyError, what, lambda: horqrux.sample(s, circ, less, 10))
        elif how == "apply":
            rejects(KeyError, what, lambda: horqrux.apply_gates(s, list(iter(circ)), less))
        elif how == "tensor":
            if in_circ:
                rejects(KeyError, what, lambda: circ.tensor(less, tuple(range(n))))
            for o, spec in zip(obs, c["obs"]):
                if drop in gen.used_names(spec):
                    rejects(KeyError, what, lambda: o.tensor(less))
        elif how == "nested":
            nested = {"circuit": less, "observables": v}
            rejects(KeyError, what, lambda: horqrux.expectation(s, circ, obs, nested, diff_mode=DiffMode(mode), **kw))
        else:
            rejects(KeyError, f"{what} in mode {c['mode']}", lambda: horqrux.expectation(s, circ, obs, less, diff_mode=DiffMode(mode), **kw))
        valid(mode)
    else:
        arg = {"list": [1.0, 0.0], "none": None, "str": "state", "int": 3}[c["arg"]]
        how = c["how"]
        fn = {
            "to_sparse": lambda: to_sparse(arg),
            "to_dense": lambda: to_dense(arg),
            "probabilities": lambda: probabilities(arg),
            "num_qubits": lambda: num_qubits(arg),
            "apply_operator": lambda: horqrux.apply_operator(arg, jnp.eye(2), (0,), (None,)),
            "apply_gates": lambda: horqrux.apply_gates(arg, list(iter(circ)), v),
        }[how]
        rejects(NotImplementedError, f"{how} of {arg!r}", fn)
        valid()
