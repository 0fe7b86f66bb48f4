"""Glue: a check whose cases expand to diff cases."""
from explore import Check, Result, Violation, main  # noqa
from drv import diff, real  # noqa
from scen import *  # noqa
from ref import evm, prim, precomp, curves  # noqa


class DiffCheck(Check):
    """cases() yields descriptors; build(desc) returns one diff case or a list."""

    def build(self, desc):
        raise NotImplementedError

    def invariant(self, desc, case, info):
        pass

    def deep(self, desc):
        """Whether to run the cases of desc a second time two calls further down."""
        return False

    def both(self, desc):
        cs = self.build(desc)
        again = self.deep(desc)
        for c in [cs] if isinstance(cs, dict) else cs:
            yield c
            if again:
                yield deepen(c)

    def run(self, desc):
        cs = self.both(desc)
        digs, n, k = [], 0, 0
        for c in cs:
            d, s, info = diff.run_case(c)
            self.invariant(desc, c, info)
            digs += d
            n += s
            k += 1
        return Result(digs, n, k)
