"""Loops whose condition is not known are followed for a few rounds; what goes on for longer ends in a value nothing is known about."""
from .interp import *

DEEP = Sym("$deep", None)


class Unwind(Interp):
    rounds = 5

    def s_While(self, n, st):
        if n.orelse:
            return super().s_While(n, st)
        out, live = [], [(st, 0)]
        while live:
            s, k = live.pop()
            if k > self.rounds:
                out.append((s, ("ret", DEEP)))
                continue
            for s1, t in self.ev(n.test, s):
                if isinstance(t, Exc):
                    out.append((s1, t))
                    continue
                for s2, b in self.truth(t, s1):
                    if not b:
                        out.append((s2, None))
                        continue
                    for s3, c in self.block(n.body, s2):
                        if c is None or c == "cont":
                            live.append((s3, k + 1))
                        else:
                            out.append((s3, None if c == "brk" else c))
        return out
