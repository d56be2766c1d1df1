"""Reference simulator: plain NumPy, written from the documentation of the gates.

It shares no code with the library under test and uses a different algorithm (controls are
slices of the amplitude tensor, operators act on an extra batch axis to get matrices).

An operation is a JSON-able dict (see gen.py).  Qubit i is axis i of the amplitude tensor, so
qubit 0 is the most significant bit of a basis label.
"""
from __future__ import annotations

import math

import numpy as np
import scipy.linalg

C = np.complex128
SQ = 1 / math.sqrt(2)
CONST = {
    "I": np.eye(2, dtype=C),
    "X": np.array([[0, 1], [1, 0]], C),
    "NOT": np.array([[0, 1], [1, 0]], C),
    "Y": np.array([[0, -1j], [1j, 0]], C),
    "Z": np.array([[1, 0], [0, -1]], C),
    "H": np.array([[SQ, SQ], [SQ, -SQ]], C),
    "S": np.array([[1, 0], [0, 1j]], C),
    "T": np.array([[1, 0], [0, complex(SQ, SQ)]], C),
    "SWAP": np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], C),
    "SQRTSWAP": np.array(
        [[1, 0, 0, 0], [0, 0.5 + 0.5j, 0.5 - 0.5j, 0], [0, 0.5 - 0.5j, 0.5 + 0.5j, 0], [0, 0, 0, 1]], C
    ),
    "ISWAP": np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], C),
    "ISQRTSWAP": np.array([[1, 0, 0, 0], [0, SQ, 1j * SQ, 0], [0, 1j * SQ, SQ, 0], [0, 0, 0, 1]], C),
}
TWO = ("SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP")
ROT = ("RX", "RY", "RZ")
PARAM = ("RX", "RY", "RZ", "PHASE")
GATES = tuple(CONST) + PARAM
COMPOSITE = ("seq", "circ", "add", "obs", "scale")


def haar_unitary(dim: int, seed: int) -> np.ndarray:
    r = np.random.RandomState(seed % (2**32))
    z = r.normal(size=(dim, dim)) + 1j * r.normal(size=(dim, dim))
    q, t = np.linalg.qr(z)
    d = np.diag(t)
    return q * (d / np.abs(d))


def general_matrix(dim: int, seed: int) -> np.ndarray:
    r = np.random.RandomState(seed % (2**32))
    return r.normal(size=(dim, dim)) + 1j * r.normal(size=(dim, dim))


def hermitian(dim: int, seed: int) -> np.ndarray:
    m = general_matrix(dim, seed)
    return (m + m.conj().T) / 2


# ---------------------------------------------------------------- parameters


def pval(p, values) -> float:
    return float(values[p]) if isinstance(p, str) else float(p)


def gate_matrix(g: dict, values: dict, order: int = 0) -> np.ndarray:
    """Matrix on the target qubits; order = 1, 2: derivative with respect to the angle."""
    name = g["g"]
    if name in CONST:
        return CONST[name]
    if name == "MAT":
        return g_mat(g)
    if name == "HAM":
        return ham_matrix(g, values)
    th = pval(g["p"], values)
    if name == "PHASE":
        if order == 0:
            return np.array([[1, 0], [0, np.exp(1j * th)]], C)
        return np.array([[0, 0], [0, (1j) ** order * np.exp(1j * th)]], C)
    pauli = CONST[name[1]]
    if order == 0:
        return math.cos(th / 2) * np.eye(2) - 1j * math.sin(th / 2) * pauli
    if order == 1:
        return -0.5 * math.sin(th / 2) * np.eye(2) - 0.5j * math.cos(th / 2) * pauli
    return -0.25 * (math.cos(th / 2) * np.eye(2) - 1j * math.sin(th / 2) * pauli)


def g_mat(g: dict) -> np.ndarray:
    dim = 2 ** len(g["t"])
    return {"unitary": haar_unitary, "general": general_matrix, "hermitian": hermitian}[g["kind"]](
        dim, g["seed"]
    )


def hamiltonian(h) -> np.ndarray:
    """A given matrix, or a random hermitian one of norm 3."""
    if isinstance(h, dict):
        m = hermitian(h["dim"], h["seed"])
        return 3 * m / np.linalg.norm(m, 2)
    return np.asarray(h, C)


def ham_matrix(g: dict, values: dict) -> np.ndarray:
    h = hamiltonian(values["hamiltonian"])
    return scipy.linalg.expm(-1j * float(values["time_evolution"]) * h)


# ---------------------------------------------------------------- application


def apply_mat(psi: np.ndarray, mat: np.ndarray, target, control=(), kill=False) -> np.ndarray:
    """Apply `mat` on `target` where all `control` qubits are 1 (axes of psi).

    kill: amplitudes whose controls are not satisfied are zeroed (derivative of a controlled gate).
    """
    control = tuple(control or ())
    k = len(target)
    out = np.zeros_like(psi) if kill else psi.copy()
    idx = [slice(None)] * psi.ndim
    for c in control:
        idx[c] = 1
    sub = psi[tuple(idx)]
    axes = [t - sum(1 for c in control if c < t) for t in target]
    m = mat.reshape((2,) * (2 * k))
    new = np.tensordot(m, sub, axes=(list(range(k, 2 * k)), axes))
    new = np.moveaxis(new, list(range(k)), axes)
    out[tuple(idx)] = new
    return out


def ctrl(g: dict) -> tuple:
    return tuple(g.get("c") or ())


def apply_op(psi: np.ndarray, op: dict, values: dict) -> np.ndarray:
    """Apply an operation (gate or composite) to an amplitude tensor (extra axes allowed)."""
    if "g" in op:
        return apply_mat(psi, gate_matrix(op, values), op["t"], ctrl(op))
    k = op["k"]
    if k in ("seq", "circ"):
        for o in op["ops"]:
            psi = apply_op(psi, o, values)
        return psi
    if k in ("add", "obs"):
        return sum(apply_op(psi, o, values) for o in op["ops"])
    if k == "scale":
        for_child = op["ops"]
        return pval(op["by"], values) * apply_op(psi, for_child, values)
    raise ValueError(k)


def apply_seq(psi, ops, values):
    for o in ops:
        psi = apply_op(psi, o, values)
    return psi


def matrix(op: dict, n: int, values: dict) -> np.ndarray:
    d = 2**n
    eye = np.eye(d, dtype=C).reshape((2,) * n + (d,))
    return apply_op(eye, op, values).reshape(d, d)


def support(op: dict) -> tuple:
    if "g" in op:
        return tuple(sorted(set(op["t"]) | set(ctrl(op))))
    kids = [op["ops"]] if op["k"] == "scale" else op["ops"]
    s = set()
    for o in kids:
        s |= set(support(o))
    return tuple(sorted(s))


def relabel(op: dict, m: dict) -> dict:
    op = dict(op)
    if "g" in op:
        op["t"] = [m[q] for q in op["t"]]
        if op.get("c"):
            op["c"] = [m[q] for q in op["c"]]
    elif op["k"] == "scale":
        op["ops"] = relabel(op["ops"], m)
    else:
        op["ops"] = [relabel(o, m) for o in op["ops"]]
    return op


def matrix_on(op: dict, qubits, values: dict) -> np.ndarray:
    """Matrix of op on the (sorted) labels `qubits`."""
    m = {q: i for i, q in enumerate(sorted(qubits))}
    return matrix(relabel(op, m), len(m), values)


# ---------------------------------------------------------------- density matrices and noise


def kraus(kind: str, p) -> list:
    X, Y, Z, I = CONST["X"], CONST["Y"], CONST["Z"], CONST["I"]
    s = math.sqrt
    if kind == "BitFlip":
        return [s(1 - p) * I, s(p) * X]
    if kind == "PhaseFlip":
        return [s(1 - p) * I, s(p) * Z]
    if kind == "Depolarizing":
        return [s(1 - p) * I, s(p / 3) * X, s(p / 3) * Y, s(p / 3) * Z]
    if kind == "PauliChannel":
        px, py, pz = p
        return [s(max(0.0, 1 - px - py - pz)) * I, s(px) * X, s(py) * Y, s(pz) * Z]
    if kind == "AmplitudeDamping":
        return [np.array([[1, 0], [0, s(1 - p)]], C), np.array([[0, s(p)], [0, 0]], C)]
    if kind == "PhaseDamping":
        return [np.array([[1, 0], [0, s(1 - p)]], C), np.array([[0, 0], [0, s(p)]], C)]
    if kind == "GeneralizedAmplitudeDamping":
        q, r = p
        return [
            s(q) * np.array([[1, 0], [0, s(1 - r)]], C),
            s(q) * np.array([[0, s(r)], [0, 0]], C),
            s(1 - q) * np.array([[s(1 - r), 0], [0, 1]], C),
            s(1 - q) * np.array([[0, 0], [s(r), 0]], C),
        ]
    raise ValueError(kind)


def dm_sandwich(rho: np.ndarray, a: np.ndarray, b: np.ndarray, target, control=(), ka=False, kb=False):
    """A rho B^dagger with A, B controlled operators; rho of shape (2,)*2n."""
    n = rho.ndim // 2
    rho = apply_mat(rho, a, target, control, ka)
    t2 = [t + n for t in target]
    c2 = [c + n for c in control]
    return apply_mat(rho, b.conj(), t2, c2, kb)


def dm_noise(rho: np.ndarray, noise, qubit: int) -> np.ndarray:
    for kind, p in noise or ():
        rho = sum(dm_sandwich(rho, K, K, [qubit]) for K in kraus(kind, p))
    return rho


def dm_apply(rho: np.ndarray, op: dict, values: dict) -> np.ndarray:
    if "g" in op:
        m = gate_matrix(op, values)
        rho = dm_sandwich(rho, m, m, op["t"], ctrl(op))
        if op.get("noise"):
            assert len(op["t"]) == 1
            rho = dm_noise(rho, op["noise"], op["t"][0])
        return rho
    assert op["k"] in ("seq", "circ")
    for o in op["ops"]:
        rho = dm_apply(rho, o, values)
    return rho


def has_noise(op: dict) -> bool:
    if "g" in op:
        return bool(op.get("noise"))
    kids = [op["ops"]] if op["k"] == "scale" else op["ops"]
    return any(has_noise(o) for o in kids)


def flat(op: dict) -> list:
    """Gates of a sequence, in application order."""
    if "g" in op:
        return [op]
    if op["k"] == "scale":
        return flat(op["ops"])
    return [g for o in op["ops"] for g in flat(o)]


# ---------------------------------------------------------------- states


def state(spec: dict) -> np.ndarray:
    """Amplitude tensor (2,)*n or density tensor (2,)*2n of a state spec."""
    n, kind = spec["n"], spec["kind"]
    d = 2**n
    if kind == "zero":
        v = np.zeros(d, C)
        v[0] = 1
    elif kind == "basis":
        v = np.zeros(d, C)
        v[spec["index"]] = 1
    elif kind == "uniform":
        v = np.full(d, 1 / math.sqrt(d), C)
    elif kind == "ghz":
        v = np.zeros(d, C)
        v[0] = v[-1] = SQ
        if n == 0:
            v[0] = 1
    elif kind == "haar":
        r = np.random.RandomState(spec["seed"] % (2**32))
        v = r.normal(size=d) + 1j * r.normal(size=d)
        v /= np.linalg.norm(v)
    elif kind == "dm":
        r = np.random.RandomState(spec["seed"] % (2**32))
        rank = min(spec["rank"], d)
        a = r.normal(size=(d, rank)) + 1j * r.normal(size=(d, rank))
        rho = a @ a.conj().T
        rho /= np.trace(rho).real
        return rho.reshape((2,) * (2 * n))
    elif kind == "mixed":
        return (np.eye(d, dtype=C) / d).reshape((2,) * (2 * n))
    elif kind == "dmpure":
        v = state(spec["of"]).ravel()
        return np.outer(v, v.conj()).reshape((2,) * (2 * n))
    else:
        raise ValueError(kind)
    return v.reshape((2,) * n)


def is_dm(spec: dict) -> bool:
    return spec["kind"] in ("dm", "mixed", "dmpure")


def to_dm(psi: np.ndarray) -> np.ndarray:
    v = psi.ravel()
    return np.outer(v, v.conj()).reshape((2,) * (2 * psi.ndim))


def evolve(spec: dict, circuit: dict, values: dict):
    """(is_density, array) after the circuit, promoting to a density matrix when noisy."""
    s = state(spec)
    if is_dm(spec):
        return True, dm_apply(s, circuit, values)
    if has_noise(circuit):
        return True, dm_apply(to_dm(s), circuit, values)
    return False, apply_op(s, circuit, values)


def expval(dens: bool, arr: np.ndarray, obs: dict, values: dict) -> float:
    if dens:
        n = arr.ndim // 2
        d = 2**n
        # O rho: apply the observable on the row axes
        return float(np.trace(apply_op(arr, obs, values).reshape(d, d)).real)
    return float(np.vdot(arr.ravel(), apply_op(arr, obs, values).ravel()).real)


def probs(dens: bool, arr: np.ndarray) -> np.ndarray:
    if dens:
        d = int(round(math.sqrt(arr.size)))
        return np.real(np.diagonal(arr.reshape(d, d))).copy()
    return np.abs(arr.ravel()) ** 2


# ---------------------------------------------------------------- derivatives


def _gates_of(gates, name):
    return [i for i, g in enumerate(gates) if g["g"] in PARAM and g["p"] == name]


def _apply_lin(x, g, values, dens, which):
    """Apply one gate; which = None, or 'd' for the derivative with respect to its angle."""
    tgt, c = g["t"], ctrl(g)
    u = gate_matrix(g, values)
    if not dens:
        if which is None:
            return apply_mat(x, u, tgt, c)
        return apply_mat(x, gate_matrix(g, values, 1), tgt, c, kill=True)
    if which is None:
        y = dm_sandwich(x, u, u, tgt, c)
    else:
        du = gate_matrix(g, values, 1)
        y = dm_sandwich(x, du, u, tgt, c, ka=True) + dm_sandwich(x, u, du, tgt, c, kb=True)
    if g.get("noise"):
        y = dm_noise(y, g["noise"], tgt[0])
    return y


def grad(spec, circuit, obs_list, values, names, obs_values=None) -> np.ndarray:
    """d E_j / d name_i, shape (len(names), len(obs)); circuit parameters only."""
    obs_values = values if obs_values is None else obs_values
    gates = flat(circuit)
    # always through density matrices: the derivative of a linear map is exact there
    s = state(spec)
    if not is_dm(spec):
        s = to_dm(s)
    out = np.zeros((len(names), len(obs_list)))
    for a, name in enumerate(names):
        for i in _gates_of(gates, name):
            x = s
            for j, g in enumerate(gates):
                x = _apply_lin(x, g, values, True, "d" if i == j else None)
            for b, o in enumerate(obs_list):
                out[a, b] += expval(True, x, o, obs_values)
    return out


def obs_grad(spec, circuit, obs_list, values, names, obs_values=None) -> np.ndarray:
    """Derivative with respect to scale parameters of the observables (each multilinear)."""
    obs_values = values if obs_values is None else obs_values
    dens, arr = evolve(spec, circuit, values)
    out = np.zeros((len(names), len(obs_list)))
    for a, name in enumerate(names):
        for b, o in enumerate(obs_list):
            out[a, b] = _obs_deriv(dens, arr, o, obs_values, name)
    return out


def _obs_deriv(dens, arr, o, values, name):
    # observables are polynomials in their scale parameters: central differences on a
    # polynomial of degree <= 3 with step 1 and 2 are exact
    def f(h):
        v = dict(values)
        v[name] = float(v[name]) + h
        return expval(dens, arr, o, v)

    return (8 * (f(1.0) - f(-1.0)) - (f(2.0) - f(-2.0))) / 12.0


def close(a, b, atol=1e-9, rtol=1e-9) -> bool:
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def dev(a, b) -> str:
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if not np.all(np.isfinite(a)):
        return "not finite"
    return f"max deviation {np.max(np.abs(a - b)) if a.size else 0:.3e}"
