"""C21: state snapshots nest; rollback restores exactly, commit keeps exactly."""
from explore import Check, Result, main
from drv import journal, real
from drv.diff import Mismatch
from drv.journal import AD, KEY, Impl, Model, alphabet, observe
from ref.forks import *  # noqa

STARTS = {"none": [], "some": [("set", AD[0], "code"), ("sset", AD[0], KEY[0], 9), ("set", AD[1], "bal")],
          "intx": [("set", AD[0], "code"), ("sset", AD[0], KEY[0], 9), ("sset", AD[0], KEY[1], 4), ("begin",), ("sset", AD[0], KEY[0], 5), ("begin",)]}

QUICK = [("some", "full", 3), ("none", "full", 2), ("intx", "full", 2), ("some", "mini", 4), ("intx", "mini", 3), ("some", "tiny", 5), ("intx", "tiny", 4)]


class C(Check):
    pid = "C21"
    rule = ("for every fork: all sequences of state operations (begin, commit, rollback to nesting 3; set, clear, destroy, storage writes and destruction, balance, "
            "nonce, code, transfers, touch, creation marks, transient writes) up to the depth, from three initial states, executed on the fork's state module and on "
            "copy-on-begin maps; after each sequence every read on every address and key, the roots when no snapshot is open, and then the same again after unwinding "
            "all snapshots by rollback and by commit.  State: distinct canonical model state including the snapshot stack")
    bounds = {"quick": "depth 3 over the full alphabet (21..31 operations), 4 over 11..14, 5 over 7..8, less from the other initial states", "thorough": "depth 4 / 6 / 8"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            plan = QUICK if not th else [(st, w, dep) for st in STARTS for w, dep in (("full", 4), ("mini", 5), ("tiny", 7))]
            for st, which, depth in plan:
                n = len(alphabet(F, which))
                for i in range(n):
                    for j in range(n):
                        yield (F, st, which, depth, i, j)

    def run(self, d):
        F, st, which, depth, i, j = d
        ops = alphabet(F, which)
        self.seen, self.n, self.k = set(), 0, 0
        start = STARTS[st]
        self.walk(F, start + [ops[i]], [ops[j]], ops, depth - 2, first=(j == 0))
        return Result(self.seen, self.n, self.k)

    def model(self, F, seq):
        m = Model(F)
        for o in seq:
            if not m.enabled(o):
                return None
            m.apply(o)
        return m

    def walk(self, F, base, extra, ops, left, first):
        m = self.model(F, base)
        if m is None:
            return
        if first:
            self.check(F, base)
        self.rec(F, base, extra, ops, left)

    def rec(self, F, base, extra, ops, left):
        for o in extra:
            m = self.model(F, base)
            if not m.enabled(o):
                continue
            seq = base + [o]
            self.check(F, seq)
            if left:
                self.rec(F, seq, ops, ops, left - 1)

    def build(self, F, seq):
        m, i = Model(F), Impl(F, real.fork(F).state)
        for o in seq:
            m.apply(o)
            try:
                i.apply(o)
            except Exception as e:
                raise Mismatch(f"{NAMES[F]}: {o} in {seq} raised {type(e).__name__}: {e}")
        return m, i

    def check(self, F, seq):
        self.n += len(seq)
        m, i = self.build(F, seq)
        self.k += 1
        self.seen.add(hash((F, m.canon())))
        self.cmp(F, m, i, seq)
        if m.snaps:
            depth = len(m.snaps)
            # unwind: by rollback on this instance, by commit on another one when it can differ
            for how in ("rollback", "commit"):
                if how == "commit":
                    m, i = self.build(F, seq)
                for d in range(depth):
                    m.apply((how,))
                    i.apply((how,))
                    self.cmp(F, m, i, seq + [(how,)] * (d + 1), root=how == "rollback" or seq[-1][0] not in ("begin", "commit", "rollback", "mark"))

    def cmp(self, F, m, i, seq, root=True):
        e = observe(m, i, AD[:2], KEY, root)
        if e:
            raise Mismatch(f"{NAMES[F]} after {[(o[0],) + tuple(x[:2].hex() if isinstance(x, bytes) else x for x in o[1:]) for o in seq]}: {e}")


if __name__ == "__main__":
    raise SystemExit(main(C()))
