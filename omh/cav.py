"""Cavity geometry: local tables evaluated at constants, and case distinction on alignment codes."""
from .core import *
from .kern import *

TABLES = {"simplex_down_template", "simplex_opposite_template", "simplex_degree", "simplex_up_template", "code_which_down",
          "code_rotation", "code_is_flipped", "make_code", "collapses", "do_collapse", "dont_collapse"}


class Tab:
    """Constant calls of small functions, decided by evaluating their source."""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def val(self, n, *a):
        k = (n,) + a
        if k not in self.memo:
            fs = [f for f in self.P.fn("Omega_h::" + n) if f.body and len(f.params) == len(a)]
            if not fs:
                raise Broken("function %s not found" % n)
            r = Kern(self.P, inline=lambda g: True).run(fs[0], [("c", x) for x in a])
            self.memo[k] = int(r[1]) if r and r[0] == "c" else None
        return self.memo[k]

    def down(self, d, k, b, v):
        return self.val("simplex_down_template", d, k, b, v)

    def __call__(self, x):
        """For rebuild(): replace constant calls."""
        if x[:1] == ("call",) and x[1].split("<")[0] in TABLES and len(x) > 2 and all(isc(y) for y in x[2:]):
            v = self.val(x[1].split("<")[0], *[int(y[1]) for y in x[2:]])
            return None if v is None else ("c", v)
        return None
