"""Reference: spin projections and LS couplings."""
import sympy as sp


def rational_range(lo, hi):
    out = []
    x = float(lo)
    while x < float(hi) + 0.5:
        out.append(sp.Rational(x))
        x += 1
    return out


def spin_range(j):
    return rational_range(-float(j), float(j))


def ls_couplings(j, j1, j2, max_L=3):
    s1, s2 = float(j1), float(j2)
    out = set()
    for L in rational_range(0, max_L):
        for S in rational_range(abs(s1 - s2), s1 + s2):
            if abs(L - S) <= j and j <= L + S and (L + S - j) % 1 == 0:
                out.add((int(L), S))
    return sorted(out)


def parity_filter(couplings, parent, child1, child2):
    out = []
    for L, S in couplings:
        if int(parent) == int(child1) * int(child2) * (-1) ** L:
            out.append((L, S))
    return out
