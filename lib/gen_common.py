"""Shared by the generators."""


def interleave(rng, a, b):
    """One case using two independent objects: the calls of a on one and of b on the other, turn by turn."""
    out, i, j, first = [], 0, 0, True
    while i < len(a) or j < len(b):
        now = i < len(a) and (j >= len(b) or rng.random() < .5)
        if now != first:
            out.append(["swap"])
            first = now
        if now:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    return out


def pairs(rng, cases, n):
    return [interleave(rng, rng.choice(cases), rng.choice(cases)) for _ in range(n)]
