"""C23: what a string hasher answers depends on the bytes of its key alone.

Each hasher of adt/StringHasher.h is interpreted on a key of any length and content: the bytes are opaque, the
length and all positions are linear. The effect analysis of check_det.py shows that nothing but those bytes and
the length can reach the answer. That it ends: every way around a loop moves a bounded measure on, and in each
range of lengths some path ends."""
import re, time
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import ir, jobs, models, loops, streams, check_det
from models import ret

HASHERS = "RS JS PJW ELF BKDR SDBM DJB DEK BP FNV AP ES".split()
TOP = 1 << 60
# lengths that counters of the usual widths tell apart
CUTS = [0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, TOP]
HIDDEN = [(r"^std::string::(capacity|get_allocator)\(\) const$", "how the key is stored")]


class Hasher:
    """one hasher on every key of lo to hi - 1 bytes"""

    def __init__(self, prog, fn, lo, hi):
        self.prog, self.fn, self.lo, self.hi = prog, fn, lo, hi
        self.E = E = Engine(prog, max_steps=20000)
        models.install(E)
        streams.install(E)
        E.positions_matter = E.joins_lossy = E.lossy_quotients = True
        E.big_unroll = E.short_unroll = 6 if hi - lo > 1 else 60
        E.hooks["gbyte"] = lambda E, st, c, d: [(st, ("x", "content"))]
        E.hooks["xcmp"] = lambda E, st, p, a, b: [(st.copy(), BTRUE), (st, BFALSE)]
        E.hooks["xbin"] = self.xbin
        E.hooks["head"] = self.head
        E.hooks["again"] = self.again
        E.hooks["outcome"] = self.outcome
        E.hooks["terminate"] = lambda E, st, d: E.report("hidden", st, "the process is ended by %s" % d)
        self.ends = self.stays = 0
        self.cls = "a string of %d bytes" % lo if hi == lo + 1 else "a string of %d to %d bytes" % (lo, hi - 1) if hi < TOP else "a string of %d bytes or more" % lo

    def xbin(self, E, st, op, w, a, b):
        return None if op in ("and", "urem", "lshr") else [(st, ("x", "content"))]

    def head(self, E, st):
        # parts of the content that were cut out are content again
        part = lambda v: v[0] == "l" and any(isinstance(s, str) and s.startswith("part") for s, _ in v[2][1])
        for f in st.frames:
            for r, v in list(f.regs.items()):
                if part(v):
                    f.regs[r] = ("x", "content")
        for oid, o in list(st.heap.items()):
            if any(part(v) for _, v in o.cells.values()):
                o = st.mut(oid)
                o.cells = {k: (z, ("x", "content") if part(v) else v) for k, (z, v) in o.cells.items()}
        return st

    def again(self, E, st, e, sig, n):
        """the program comes back to a loop head in a state that was there before"""
        ctx = tuple((g.fn.name, g.blk, g.idx) for g in n.frames)
        E.oblige("endless", st, E.where(st))
        if not any(x[1] == e.id for x in st.lineage):
            return          # another path came here; it is followed from there
        for s, g in sig.items():
            for up in (1, -1):
                d = scale(sub(g, sym(s)), up)
                if not loops.entails(n.facts, sub(d, ONE)):
                    continue
                bound = sub(const(TOP + 64), sym(s)) if up == 1 else add(sym(s), const(TOP + 64))
                if loops.entails(n.facts, bound):
                    return
        self.stuck(E, st)

    def stuck(self, E, st):
        self.stays += 1
        E.give_up(st, "nothing was found that bounds the rounds of the loop at %s" % E.where(st))

    def outcome(self, E, st, kind, val):
        self.ends += 1
        E.oblige("hidden", st, self.fn.dem)
        if kind != "ret":
            E.report("hidden", st, "no hash value for %s (%s)" % (self.cls, kind), self.fn.dem)
        elif val[0] == "u":
            E.report("uninit", st, "the hash value is not initialised", self.fn.dem)

    def run(self):
        E = self.E
        st = St()
        n = sym("len")
        E.assume(st, sub(n, const(self.lo))); E.assume(st, sub(const(self.hi - 1), n))
        q = (("G", "the key", n),)
        s = st.new(Obj("seq", None, tag="the key", attr={"nul": True}, seq=q))
        h = st.new(Obj("ext", const(32), "undef", tag="the key", cells={ZERO: (32, ("S", s))}))
        E.explore(st, self.fn, [P(h)])
        return E


def called(prog, fn):
    """the function and those of the repository it calls"""
    out, todo = [], [fn.name]
    while todo:
        f = prog.functions.get(todo.pop())
        if f is not None and f.defined and f not in out:
            out.append(f)
            todo += sorted(check_det.refs(f.blocks, "f", set()))
    return out


def hashers(prog, r, names, kinds, seconds=60):
    old = jobs.UNTIL[0]
    jobs.UNTIL[0] = min(old or 1e18, time.time() + seconds)
    for nm, q in jobs.each(lambda nm: one(prog, nm, kinds), names):
        if q is None:
            r.undecided.append(jobs.undecided("hasher %s" % nm))
        else:
            r.merge(q)
    jobs.UNTIL[0] = old
    jobs.alarm()


def one(prog, nm, kinds):
    import properties
    r = properties.Result()
    fn = prog.one(r"^sa_hash_%s\(" % nm)
    c = Hasher(prog, fn, 0, TOP)
    E = c.run()
    r.add_engine(E, kinds)
    r.obligations += 1
    r.discharged += c.ends > 0 and not c.stays
    if r.findings or not E.undecided:
        return r
    # look for a length, or a range of lengths, that shows it
    exact = [(k, k + 1) for k in range(41)]
    for lo, hi in exact + (list(zip(CUTS, CUTS[1:])) if c.stays else []):
        d = Hasher(prog, fn, lo, hi)
        E = d.run()
        if hi == lo + 1:
            fs = [f for f in E.findings.values() if f.kind in kinds]
            if fs:
                r.findings += fs
                break
        if not d.ends and not E.findings and all("bounds the rounds" in f.msg for f in E.undecided.values()):
            w = next((g.where(None) for g in called(prog, fn) if "StringHasher" in g.dem), fn.dem)
            r.findings.append(Finding("endless", "hashing %s never ends" % d.cls, w, [], [], True, None))
            break
    return r


def effects(prog, r, names):
    roots = [prog.one(r"^sa_hash_%s\(" % nm).name for nm in names]
    check_det.Effects(prog, r, roots, HIDDEN)


def decide(pid, kinds, tier):
    import properties
    r = properties.Result("effect analysis and abstract interpretation of every string hasher on keys of any length and content")
    r.rules = ["nothing but the bytes and the length of the key is read: no address, capacity, changing object or outside information",
               "every access lies within the key and its terminator; the value is initialised",
               "every way around a loop moves a bounded measure on; for every range of lengths some path ends"]
    r.assumptions.append("keys have fewer than 2^60 bytes")
    prog = ir.load(["hashers"])
    effects(prog, r, HASHERS)
    hashers(prog, r, [x for x in HASHERS if x != "ES"], kinds)
    # the characteristic is followed bit by bit instead
    import check_char
    q = check_char.decide(pid, [k for k in kinds if k in ("memory", "uninit")], tier)
    r.merge(q)
    return r


if __name__ == "__main__":
    r = decide("C23", ("hidden", "endless", "memory", "uninit"), "quick")
    print(r.obligations, r.discharged, r.stats, r.extra)
    for f in r.findings: print(f.text())
    print("UNDECIDED")
    for f in r.undecided: print(f.text())
