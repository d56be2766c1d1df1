"""C14: sampled bitstrings follow the Born distribution of the output state."""
from collections.abc import Mapping

import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
import stats

RESPELL = True
EXAMPLES = {"quick": 1600, "thorough": 16000}
SHOTS = [1, 2, 13, 100, 1000, 4000, 30000, 200000]
RULE = (
    "circuits of 0-8 gates on 1-9 qubits, pure, mixed or noisy, 1-30000 shots (200000 for states with a rare outcome): the counts are positive, sum to the "
    "number of shots, their keys are bitstrings with qubit 0 first, outcomes of probability zero never appear, every "
    "frequency is within a Bernstein bound (1e-12) of its probability, repeating gives the same counts; shot numbers "
    "below one raise ValueError. Non-trivial: at least two qubits and two outcomes with probability above 0.01"
)
ASSUMPTIONS = ["sampling uses a fixed key, so that every run is reproducible"]


@st.composite
def _case(draw, tier):
    noisy = draw(st.integers(0, 4)) == 0
    dm = draw(st.integers(0, 4)) == 0
    n = gen.size(draw, 1, 4) if noisy or dm else draw(gen.weighted((1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (6, 2), (9, 1)))
    names = gen.NAMES[:2]
    c = gen.circuit(draw, n, 0, draw(gen.weighted((2, 3), (8, 3))), nest=1, names=names, noise=noisy)
    bad = draw(st.integers(0, 29)) == 0
    return {
        # rare outcomes, and enough shots to see them
        "tilt": [draw(st.sampled_from([1e-4, 3e-4, 1e-3, 3e-3, 0.02])), draw(st.integers(0, 5))] if draw(st.integers(0, 11)) == 0 else None,
        "n": n,
        "state": gen.density(draw, n) if dm else gen.pure(draw, n),
        "circuit": c,
        "values": gen.values_for(draw, gen.used_names(c), extra=True),
        "shots": draw(st.sampled_from([0, -1, -100])) if bad else draw(gen.weighted(*[(s, 2 if s < 100 else 3) for s in SHOTS])),
        "repeat": draw(st.integers(0, 3)) == 0,
    }


def strategy(tier):
    return _case(tier).map(_tilted)


def _tilted(c):
    if c["tilt"] is not None and c["shots"] > 0 and c["n"] <= 6:
        p, q = c["tilt"]
        c["state"] = {"n": c["n"], "kind": "zero"}
        c["circuit"] = {"k": "circ", "n": c["n"], "ops": [{"g": "RX", "t": [q % c["n"]], "p": 2 * float(np.arcsin(np.sqrt(p)))}]}
        c["shots"] = 200000
    del c["tilt"]
    return c


def _probs(c):
    return ref.probs(*ref.evolve(c["state"], c["circuit"], c["values"]))


def nontrivial(c):
    return c["shots"] < 1 or (c["n"] >= 2 and int(np.sum(_probs(c) > 0.01)) >= 2)


def labels(c):
    out = [f"shots={c['shots']}", f"n={c['n']}"]
    out.append("density matrix" if ref.is_dm(c["state"]) else "noisy" if ref.has_noise(c["circuit"]) else "pure")
    if np.any(_probs(c) < 1e-12):
        out.append("impossible outcomes")
    return out


def run(c):
    n, N = c["n"], c["shots"]
    s, v = B.state(c["state"]), B.values(c["values"])
    circ = B.sut(B.op, c["circuit"])
    if N < 1:
        try:
            horqrux.sample(s, circ, v, N)
        except ValueError:
            return
        except Exception as e:
            B.fail(f"{N} shots raised {type(e).__name__} instead of ValueError")
        B.fail(f"{N} shots were accepted")
    before = B.array(s).copy()
    out = B.sut(horqrux.sample, s, circ, v, N)
    B.need(isinstance(out, Mapping), "counts are not a mapping")
    p = _probs(c)
    total = 0
    freq = np.zeros(2**n)
    for k, m in out.items():
        B.need(isinstance(k, str) and len(k) == n and set(k) <= {"0", "1"}, lambda: f"key {k!r} for {n} qubits")
        B.need(int(m) == m and m > 0, lambda: f"count {m!r}")
        total += int(m)
        freq[int(k, 2)] = m / N
    B.need(total == N, lambda: f"{total} counts for {N} shots")
    B.need(np.all(freq[p < 1e-12] == 0), "an outcome of probability zero was sampled")
    d = 2**n
    for i in range(d):
        b = stats.bernstein(p[i] * (1 - p[i]), 1.0, N, stats.DELTA / d)
        B.need(
            abs(freq[i] - p[i]) <= b,
            lambda: f"outcome {i:0{n}b}: frequency {freq[i]:.4f} of probability {p[i]:.4f} with {N} shots",
        )
    B.need(B.array(s).shape == before.shape and np.array_equal(B.array(s), before), "sampling changed the input state")
    if c["repeat"]:
        B.need(dict(B.sut(horqrux.sample, s, circ, v, N)) == dict(out), "sampling again gives other counts")
