"""Concentration bounds: an estimate outside them has probability below DELTA if the sampler is right."""
import math

import numpy as np
from scipy import stats as _st

import ref

DELTA = 1e-12


def bernstein(var, width, n, delta=DELTA):
    """Two-sided Bernstein bound for the mean of n independent draws in a range of this width."""
    if width <= 1e-12:
        return 1e-9
    L = math.log(2 / delta)
    var = max(0.0, var)
    return math.sqrt(2 * var * L / n) + 2 * width * L / (3 * n) + 1e-9


def spectrum(obs, n, values):
    m = ref.matrix(obs, n, values)
    m = (m + m.conj().T) / 2
    return np.linalg.eigvalsh(m)


def moments(dens, arr, obs, values):
    """mean and variance of the measurement of obs"""
    n = arr.ndim // 2 if dens else arr.ndim
    sq = {"k": "seq", "ops": [obs, obs]}
    mean = ref.expval(dens, arr, obs, values)
    second = ref.expval(dens, arr, sq, values)
    # the last term covers the rounding of the difference
    return mean, max(0.0, second - mean**2) + 2e-15 * abs(second)


def binomial(k, n, p, slack=1e-9):
    """Smaller tail probability of k successes in n trials; p is known up to the slack."""
    return float(min(_st.binom.cdf(k, n, max(0.0, p - slack)), _st.binom.sf(k - 1, n, min(1.0, p + slack))))
