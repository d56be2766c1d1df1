"""Case descriptions -> objects of the library under test (public API only)."""
from __future__ import annotations

import json
import zlib

import jax
import jax.numpy as jnp
import numpy as np

import horqrux
from horqrux.analog import HamiltonianEvolution
from horqrux.circuit import QuantumCircuit
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.primitives import primitive as prim
from horqrux.primitives import parametric as para
from horqrux.utils.operator_utils import DensityMatrix

import ref

NOISE = {
    "BitFlip": DigitalNoiseType.BITFLIP,
    "PhaseFlip": DigitalNoiseType.PHASEFLIP,
    "Depolarizing": DigitalNoiseType.DEPOLARIZING,
    "PauliChannel": DigitalNoiseType.PAULI_CHANNEL,
    "AmplitudeDamping": DigitalNoiseType.AMPLITUDE_DAMPING,
    "PhaseDamping": DigitalNoiseType.PHASE_DAMPING,
    "GeneralizedAmplitudeDamping": DigitalNoiseType.GENERALIZED_AMPLITUDE_DAMPING,
}


# Ways to spell one and the same input, chosen by a hash of the case: equal gates as one shared object
# or as several objects, the dtype of real states, the kind of random key.
_how = {"share": False, "dtype": 0, "typed": False}
_made: dict = {}


def begin(case):
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    _made.clear()
    _how.update(share=bool(h & 1), dtype=(h >> 1) % 5, typed=(h >> 8) % 4 == 0)


def key(seed):
    """Random key: a raw PRNGKey, or a typed key of the same seed."""
    return jax.random.key(seed) if _how["typed"] else jax.random.PRNGKey(seed)


class Violation(AssertionError):
    """The property does not hold for this case."""


def fail(msg):
    raise Violation(msg)


def sut(fn, *a, **k):
    """Call the library on a valid input: raising is a violation."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        msg = f"{type(e).__name__}: {str(e)[:300]}"
    fail(f"raised on valid input: {msg}")


def need(cond, msg):
    if not cond:
        fail(msg() if callable(msg) else msg)


def asarr(x, what="result"):
    """NumPy array of a result of the library; a result that is no array is a violation."""
    try:
        a = np.asarray(x)
        if a.dtype == object:
            raise TypeError("object array")
        return a
    except Exception as e:
        msg = f"{what} of type {type(x).__name__} is not an array ({type(e).__name__})"
    fail(msg)


def same(got, want, what, atol=1e-9, rtol=1e-9):
    got = asarr(got, what)
    if not ref.close(got, want, atol, rtol):
        fail(f"{what}: {ref.dev(got, want)}")


def form(q, f, multi=False):
    if f == "nested":
        return (tuple(q),)
    if f == "int" and len(q) == 1:
        return q[0]
    if f == "npint" and len(q) == 1:
        return np.int64(q[0])
    if f == "nptuple":
        return tuple(np.int32(x) for x in q)
    if f == "array":
        return np.array(q)
    if f == "list":
        return list(q)
    return tuple(q)


def noise(spec):
    if not spec:
        return None
    return tuple(
        DigitalNoiseInstance(NOISE[k], tuple(p) if isinstance(p, (list, tuple)) else p) for k, p in spec
    )


def gate(g, sparse=False):
    name = g["g"]
    if name == "HAM":
        kw = {"control": form(g["c"], g.get("cf", "int"))} if g.get("c") else {}
        return HamiltonianEvolution(form(g["t"], g.get("tf", "tuple")), **kw)
    fn = getattr(prim, name) if name in ref.CONST else getattr(para, name)
    kw = {}
    t = form(g["t"], g.get("tf", "int"))
    if g.get("c"):
        kw["control"] = form(g["c"], g.get("cf", "int"))
    elif g.get("cf") == "npint":
        kw["control"] = None
    elif g.get("cf") == "tuple":
        kw["control"] = (None,)
    if g.get("noise"):
        kw["noise"] = noise(g["noise"])
    if sparse:
        kw["sparse"] = True
    if name in ref.PARAM:
        p = g["p"]
        if g.get("pf") == "int":
            p = int(p)
        elif g.get("pf") == "np":
            p = np.float64(p)
        return fn(p, t, **kw)
    return fn(t, **kw)


def op(o, sparse=False):
    if not _how["share"] or o.get("k") in ("circ", "obs"):
        return _op(o, sparse)
    k = json.dumps([o, sparse], sort_keys=True)
    if k not in _made:
        _made[k] = _op(o, sparse)
    return _made[k]


def _op(o, sparse=False):
    if "g" in o:
        return gate(o, sparse)
    k = o["k"]
    if k == "scale":
        inner = o["ops"]
        if o.get("aslist") and inner.get("k") == "seq":
            return Scale([op(x, sparse) for x in inner["ops"]], o["by"])
        return Scale(op(inner, sparse), o["by"])
    kids = [op(x, sparse) for x in o["ops"]]
    if k == "seq":
        return OpSequence(kids)
    if k == "circ":
        return QuantumCircuit(o["n"], kids, list(o.get("fparams", [])))
    if k == "add":
        return Add(kids)
    if k == "obs":
        return Observable(kids)
    raise ValueError(k)


def state(spec):
    arr = ref.state(spec)
    if _how["dtype"] and spec["kind"] in ("zero", "basis", "uniform", "ghz"):
        whole = spec["kind"] in ("zero", "basis")
        arr = arr.real.astype([None, np.float64, np.float64, np.int64, np.float64][_how["dtype"]] if whole else np.float64)
    arr = jnp.asarray(arr)
    return DensityMatrix(arr) if ref.is_dm(spec) else arr


def values(v, f="float"):
    if isinstance(v.get("hamiltonian"), dict):
        h = jnp.asarray(ref.hamiltonian(v["hamiltonian"]))
        rest = values({k: x for k, x in v.items() if k != "hamiltonian"}, f)
        return {k: h if k == "hamiltonian" else rest[k] for k in v}
    if f == "jnp":
        return {k: jnp.asarray(x) for k, x in v.items()}
    if f == "vec":
        return {k: jnp.asarray([float(x)]) for k, x in v.items()}
    if f == "np":
        return {k: np.float64(x) for k, x in v.items()}
    if f == "int":  # whole numbers as Python integers
        return {k: int(x) if float(x).is_integer() else x for k, x in v.items()}
    return dict(v)


def array(x):
    """NumPy array of a state vector or density matrix result."""
    return asarr(x.array if isinstance(x, DensityMatrix) else x)


def check_state(got, dens, want, what, atol=1e-9):
    if dens != isinstance(got, DensityMatrix):
        fail(f"{what}: result is {'not ' if dens else ''}a density matrix")
    same(array(got), want, what, atol)
