"""Reference: angles of the Dalitz-plot decomposition, written from Eqs. (A1)-(A10) of the paper."""
import sympy as sp
from ampform.kinematics.phasespace import Kallen

NEXT = {1: 2, 2: 3, 3: 1}


def mass(i):
    return sp.Symbol(f"m{i}", nonnegative=True)


def sigma(i):
    return sp.Symbol(f"sigma{i}", nonnegative=True)


def sqrt_kallen(x, y, z):
    return sp.sqrt(Kallen(x, y, z))


def scattering(i, j):
    if i not in (1, 2, 3) or j not in (1, 2, 3):
        raise ValueError
    if i == j:
        raise ValueError
    if NEXT[i] != j:
        raise NotImplementedError
    k = 6 - i - j
    s = sigma(k)
    num = 2 * s * (sigma(j) - mass(k) ** 2 - mass(i) ** 2) - (s + mass(i) ** 2 - mass(j) ** 2) * (
        mass(0) ** 2 - s - mass(k) ** 2
    )
    den = sqrt_kallen(mass(0) ** 2, mass(k) ** 2, s) * sqrt_kallen(s, mass(i) ** 2, mass(j) ** 2)
    return sp.Symbol(f"theta_{i}{j}", real=True), sp.acos(num / den)


def theta_hat_value(i, j):
    if i == j:
        return sp.Integer(0)
    if NEXT[i] != j:
        return -theta_hat_value(j, i)
    k = 6 - i - j
    m0 = mass(0)
    num = (m0**2 + mass(i) ** 2 - sigma(i)) * (m0**2 + mass(j) ** 2 - sigma(j)) - 2 * m0**2 * (
        sigma(k) - mass(i) ** 2 - mass(j) ** 2
    )
    den = sqrt_kallen(m0**2, mass(j) ** 2, sigma(j)) * sqrt_kallen(m0**2, sigma(i), mass(i) ** 2)
    return sp.acos(num / den)


def theta_hat(i, j):
    if i not in (1, 2, 3) or j not in (1, 2, 3):
        raise ValueError
    return sp.Symbol(rf"\hat\theta_{i}({j})", real=True), theta_hat_value(i, j)


def zeta_value(i, j, k):
    """Rotation of particle i from chain j to chain k."""
    if i == 0:
        return theta_hat_value(j, k)
    if k == 0:
        return zeta_value(i, j, i)
    if j == k:
        return sp.Integer(0)
    m0 = mass(0)
    mi = mass(i)
    if i != j and i != k:
        if NEXT[i] != j:
            return -zeta_value(i, k, j)
        num = 2 * mi**2 * (mass(j) ** 2 + mass(k) ** 2 - sigma(i)) + (sigma(j) - mi**2 - mass(k) ** 2) * (
            sigma(k) - mi**2 - mass(j) ** 2
        )
        den = sqrt_kallen(sigma(j), mass(k) ** 2, mi**2) * sqrt_kallen(sigma(k), mi**2, mass(j) ** 2)
        return sp.acos(num / den)
    if i == j:
        if NEXT[k] != i:
            return -zeta_value(i, k, j)
        b = k
    else:
        if NEXT[i] != j:
            return -zeta_value(i, k, j)
        b = j
    a = 6 - i - b
    # b: the chain that is not that of the rotated particle itself, a: the remaining one
    num = 2 * mi**2 * (sigma(a) - m0**2 - mass(a) ** 2) + (m0**2 + mi**2 - sigma(i)) * (
        sigma(b) - mi**2 - mass(a) ** 2
    )
    den = sqrt_kallen(m0**2, mi**2, sigma(i)) * sqrt_kallen(sigma(b), mi**2, mass(a) ** 2)
    return sp.acos(num / den)


def zeta(i, j, k):
    if i == 0 and (j not in (1, 2, 3) or k not in (1, 2, 3)):
        raise ValueError
    if not (0 <= i <= 3 and 1 <= j <= 3 and 0 <= k <= 3):
        if j == k and k != 0:
            return sp.Symbol(rf"\zeta^{i}_{{{j}({k})}}", real=True), sp.Integer(0)
        raise NotImplementedError
    return sp.Symbol(rf"\zeta^{i}_{{{j}({k})}}", real=True), zeta_value(i, j, k)
