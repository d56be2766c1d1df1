"""C05: noisy evolution is physical; probabilities outside [0, 1] are rejected."""
import numpy as np
from hypothesis import strategies as st

import build as B
import gen
import horqrux
import ref
from horqrux.circuit import QuantumCircuit
from horqrux.noise import DigitalNoiseInstance

RESPELL = True
EXAMPLES = {"quick": 3000, "thorough": 36000}
RULE = (
    "(a) noisy circuits of 1-8 gates on 1-5 qubits: trace one, hermitian, positive, and equal to the noiseless "
    "result when every probability is zero; (b) Kraus completeness for random probabilities; (c) probabilities or "
    "tuples just or far outside the valid set raise ValueError when the channel is used. Non-trivial: a channel with "
    "a probability strictly between 0 and 1, or an invalid one"
)
ASSUMPTIONS = ["NaN probabilities are out of the domain"]
SCALAR = ["BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping"]
BAD = st.one_of(
    st.sampled_from([-1e-6, 1 + 1e-6, -0.5, 1.5, 2.0, -1.0, 100.0, 1.0001, -1e-9, 1 + 1e-9]),
    st.floats(1.00001, 50),
    st.floats(-50, -0.00001),
)


@st.composite
def _bad(draw):
    kind = draw(st.sampled_from(SCALAR + ["PauliChannel"] * 3 + ["GeneralizedAmplitudeDamping"] * 2))
    if kind in SCALAR:
        return [kind, draw(BAD)]
    if kind == "GeneralizedAmplitudeDamping":
        i = draw(st.integers(0, 2))
        return [kind, [draw(BAD) if i != 1 else draw(gen.PROB), draw(BAD) if i != 0 else draw(gen.PROB)]]
    r = draw(st.integers(0, 2))
    if r == 0:  # every entry valid, sum too large
        a = draw(st.integers(1, 64))
        b = draw(st.integers(1, 64))
        c = draw(st.integers(max(0, 65 - a - b), 64))
        p = [a / 64, b / 64, c / 64]
    elif r == 1:  # a negative entry hidden in a valid sum
        neg = draw(st.sampled_from([-1 / 64, -0.25, -0.5, -1.0]))
        p = [neg, draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])), draw(st.sampled_from([0.0, 0.25]))]
    else:
        p = [draw(BAD), draw(gen.DY) / 4, draw(gen.DY) / 4]
    return [kind, list(draw(st.permutations(p)))]


@st.composite
def _case(draw, tier):
    kind = draw(gen.weighted(("evolve", 6), ("kraus", 1), ("zero", 1), ("bad", 3)))
    if kind == "kraus":
        return {"kind": kind, "noise": [draw(gen.channel())]}
    n = draw(gen.weighted((1, 9), (2, 9), (3, 9), (4, 6), (5, 1)))
    if kind == "bad":
        g = gen.gate(draw, n, pool=["X", "H", "RX", "PHASE"], params="numeric")
        g["noise"] = draw(gen.noises(2)) if draw(st.booleans()) else []
        g["noise"].insert(draw(st.integers(0, len(g["noise"]))), draw(_bad()))
        return {"kind": kind, "n": n, "state": gen.anystate(draw, n), "gate": g, "how": draw(st.sampled_from(["run", "call", "kraus"]))}
    c = gen.circuit(draw, n, 1, 8, names=gen.NAMES[:3], noise=True)
    if not ref.has_noise(c):
        g = gen.gate(draw, n, pool=["X", "H", "RX", "RY", "PHASE"], names=gen.NAMES[:3])
        g["noise"] = draw(gen.noises())
        c["ops"].append(g)
    if kind == "zero":
        for g in c["ops"]:
            if g.get("noise"):
                g["noise"] = [_zero(x, draw) for x in g["noise"]]
    return {
        "kind": kind,
        "n": n,
        "state": gen.anystate(draw, n),
        "circuit": c,
        "values": gen.values_for(draw, gen.used_names(c)),
    }


def _zero(ch, draw):
    kind, p = ch
    if kind == "PauliChannel":
        return [kind, [0.0, 0.0, 0.0]]
    if kind == "GeneralizedAmplitudeDamping":
        return [kind, [p[0], 0.0]]
    return [kind, 0.0]


strategy = _case


def nontrivial(c):
    if c["kind"] == "bad":
        return True
    chans = c["noise"] if c["kind"] == "kraus" else [x for g in c["circuit"]["ops"] for x in g.get("noise", [])]
    if c["kind"] == "zero":
        return True
    return any(any(0 < x < 1 for x in (p if isinstance(p, list) else [p])) for _, p in chans)


def labels(c):
    out = ["kind=" + c["kind"]]
    if c["kind"] == "bad":
        out += ["bad " + k for k, _ in c["gate"]["noise"]]
    return out


def run(c):
    kind = c["kind"]
    if kind == "kraus":
        inst = B.sut(B.noise, c["noise"])[0]
        ks = [B.asarr(k) for k in B.sut(lambda: tuple(inst.kraus))]
        B.same(sum(k.conj().T @ k for k in ks), np.eye(2), f"sum of K^dagger K of {c['noise']}")
        return
    if kind == "bad":
        try:
            if c["how"] == "kraus":
                for x in B.noise(c["gate"]["noise"]):
                    x.kraus
            else:
                g = B.gate(c["gate"])
                s = B.state(c["state"])
                if c["how"] == "run":
                    horqrux.run(QuantumCircuit(c["n"], [g]), s)
                else:
                    g(s)
        except ValueError:
            return
        except Exception as e:
            msg = f"{type(e).__name__}: {e}"
            B.fail(f"invalid probability in {c['gate']['noise']} raised {msg[:200]} instead of ValueError")
        B.fail(f"invalid probability in {c['gate']['noise']} was accepted")
    s = B.state(c["state"])
    out = B.sut(horqrux.run, B.op(c["circuit"]), s, B.values(c["values"]))
    B.need(isinstance(out, B.DensityMatrix), "noisy evolution does not return a density matrix")
    a = B.array(out)
    B.need(a.shape == (2,) * (2 * c["n"]), lambda: f"shape {a.shape}")
    d = 2 ** c["n"]
    m = a.reshape(d, d)
    B.need(np.all(np.isfinite(m)), "not finite")
    B.need(abs(np.trace(m) - 1) < 1e-9, lambda: f"trace {np.trace(m)}")
    B.need(np.max(np.abs(m - m.conj().T)) < 1e-9, "not hermitian")
    low = np.linalg.eigvalsh((m + m.conj().T) / 2)[0]
    B.need(low > -1e-9, lambda: f"negative eigenvalue {low}")
    if kind == "zero":
        st0 = ref.state(c["state"])
        rho = st0 if ref.is_dm(c["state"]) else ref.to_dm(st0)
        clean = [{k: x for k, x in g.items() if k != "noise"} for g in c["circuit"]["ops"]]
        for g in clean:
            rho = ref.dm_apply(rho, g, c["values"])
        B.same(a, rho, "channels with zero probability")
