"""Truncated power series in s of Laplace transforms, and the exact single-channel priority results built from them."""
import math

import numpy as np


def lst(moments, K):
    """Series of a Laplace transform from moments [m1, m2, ..] up to s^K."""
    a = np.zeros(K + 1)
    a[0] = 1.0
    for k in range(1, K + 1):
        a[k] = (-1) ** k * moments[k - 1] / math.factorial(k)
    return a


def moments_of(a, num):
    return [(-1) ** k * a[k] * math.factorial(k) for k in range(1, num + 1)]


def mul(a, b):
    return np.convolve(a, b)[:len(a)]


def compose(a, x):
    """a(x(s)) where x has no constant term."""
    out = np.zeros_like(a)
    for c in a[::-1]:
        out = mul(out, x)
        out[0] += c
    return out


def divide(a, b):
    """a / b; common zero constant terms are cancelled (the last coefficient is then lost)."""
    if a[0] == 0 and b[0] == 0:
        return divide(a[1:], b[1:])
    out = np.zeros_like(a)
    for k in range(len(a)):
        out[k] = (a[k] - sum(out[i] * b[k - i] for i in range(k))) / b[0]
    return out


def mixture(l, b, K):
    tot = sum(l)
    return [sum(x * y[k] for x, y in zip(l, b)) / tot for k in range(K)]


def busy(l, B):
    """Busy period transform of M/G/1: nu(s) = B(s + l - l nu(s))."""
    K = len(B) - 1
    nu = B.copy()
    s = np.zeros(K + 1)
    if K:
        s[1] = 1.0
    # the coefficients are found one by one: with nu right up to order k the k + 1-st is linear
    nu = np.zeros(K + 1)
    nu[0] = 1.0
    for k in range(1, K + 1):
        x = s - l * nu
        x[0] = 0.0
        rest = compose(B, x)[k]                      # contribution without nu[k]
        nu[k] = rest / (1 + l * B[1])                # B[1] = -b1
    return nu


def shift(l, nu):
    """s + l - l nu(s)"""
    x = -l * nu
    x[0] = 0.0
    x[1] += 1.0
    return x


class Priority:
    """Exact M/G/1 with classes 0 (highest) .. k-1; b[k] must have K moments."""

    def __init__(self, l, b, K):
        self.l, self.K = list(l), K
        self.B = [lst(x, K) for x in b]
        self.b = b

    def higher(self, j):
        """The series of s + L - L nu(s) of the classes above j, and their busy period."""
        la = sum(self.l[:j])
        if not j:
            x = np.zeros(self.K + 1)
            x[1] = 1.0
            return x, None
        nu = busy(la, lst(mixture(self.l[:j], self.b[:j], self.K), self.K))
        return shift(la, nu), nu

    def busy(self, j):
        """Busy period of classes 0..j."""
        return self.higher(j + 1)[1]

    def wait(self, j, preemptive):
        """Transform of the wait until the first start of service of class j."""
        x, _ = self.higher(j)
        load = sum(a * y[0] for a, y in zip(self.l[:j + 1], self.b)) if preemptive else sum(a * y[0] for a, y in zip(self.l, self.b))
        top = (1 - load) * x
        if not preemptive:
            for i in range(j + 1, len(self.l)):
                t = -self.l[i] * compose(self.B[i], x)
                t[0] = 0.0
                top = top + t
        bottom = self.l[j] * compose(self.B[j], x)
        bottom[0] = 0.0
        bottom[1] += 1.0
        return divide(top, bottom)

    def active(self, j):
        """Transform of the time from the first start of service to completion (preemptive resume)."""
        return compose(self.B[j], self.higher(j)[0])


def conv(*ms):
    """Moments of a sum of independent variables."""
    K = min(map(len, ms))
    a = lst([0.0] * K, K)
    for m in ms:
        a = mul(a, lst(m[:K], K))
    return moments_of(a, K)
