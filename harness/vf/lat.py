"""Lattice <-> real coordinates, and encodings of observations as integers."""

import math

NAN, PINF, MINF = 2100000001, 2100000002, 2100000003
LIM = 2000000000


def enc(x, scale):
    """A float as an integer in units of 1/scale (with sentinels)."""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else MINF
    v = x * scale
    if v >= LIM:
        return LIM
    if v <= -LIM:
        return -LIM
    return int(round(v))


class Frame:
    """Maps lattice coordinates to the coordinates given to the code."""

    def __init__(self, inp):
        self.unit = inp.get("unit", 1)
        self.off = inp.get("off", [0, 0])

    def p(self, q):
        import numpy as np

        return np.array([self.off[0] + q[0] / self.unit, self.off[1] + q[1] / self.unit],
                        dtype=np.float32)

    def seg(self, a, b):
        import numpy as np

        return np.stack([self.p(a), self.p(b)])

    def back(self, xy):
        """Observed coordinates, in 10^-3 lattice units."""
        return [enc((float(xy[0]) - self.off[0]) * self.unit, 1000),
                enc((float(xy[1]) - self.off[1]) * self.unit, 1000)]
