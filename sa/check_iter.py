"""C19: iterators denote positions.

Vector iterators: every operation, on a storage of any length and from any two positions in it, is interpreted with
the positions and offsets as linear unknowns; what it answers must be what the same operation on the numbers gives.
Hash table iterators: for every arrangement of a table of up to a few buckets (check_hash), iterators are obtained at
every position they can be moved to, and compared, copied, assigned, advanced and used there, and one past the end."""
import re, time
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import ir, models, check_hash
from check_hash import Tables

LENGTH = 1 << 40      # elements


class Pointers:
    """PointerIterator over items of one size"""

    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.engines = []
        self.count = 0

    def fn(self, op):
        return self.prog.one("^%s_%s$" % (self.name, op))

    def const(self, op):
        E = self.engine()
        E.explore(St(), self.fn(op), [])
        return cval(E.outcomes[0][2])

    def engine(self, keep=False):
        E = Engine(self.prog, max_steps=20000)
        models.install(E)
        if keep:
            self.engines.append(E)
        return E

    def where(self, op):
        return "PointerIterator (include/eni/adt/bits/PointerIterator.tcc), %s" % op

    def run(self):
        self.isz, self.z = self.const("size"), self.const("item")
        for op, rel in (("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
            self.compare(op, rel)
        i, j = sym("i"), sym("j")
        self.go("distance", 2, lambda E, s, v, env: self.number(E, s, v, sub(i, j), "the distance of two iterators is not that of their positions"), "operator-")
        for op, w in (("deref", "operator*"), ("cderef", "operator*"), ("arrow", "operator->"), ("carrow", "operator->")):
            self.go(op, 1, lambda E, s, v, env: self.pointer(E, s, v, env, i, "using an iterator gives another element than its own"), w)
        k = sym("k")
        for op, w, to in (("index", "operator[]", add(i, k)), ("plus", "operator+", add(i, k)), ("minus", "operator-", sub(i, k))):
            self.go(op, 1, lambda E, s, v, env, to=to: self.pointer(E, s, v, env, to, "moving by an offset gives another position"), w, k, to)
        for op, w, to in (("plus_to", "operator+=", add(i, k)), ("minus_to", "operator-=", sub(i, k))):
            self.go(op, 1, lambda E, s, v, env, to=to: self.moved(E, s, v, env, to), w, k, to)
        for op, w, to in (("next", "operator++", add(i, ONE)), ("prior", "operator--", sub(i, ONE))):
            self.go(op, 1, lambda E, s, v, env, to=to: self.moved(E, s, v, env, to), w, None, to)
        for op, w, to in (("next_old", "operator++(int)", add(i, ONE)), ("prior_old", "operator--(int)", sub(i, ONE))):
            def old(E, s, v, env, to=to):
                self.pointer(E, s, v, env, i, "the position before the step is not given")
                self.at(E, s, env["a"], env, to, "the step does not arrive at the next position")
            self.go(op, 1, old, w, None, to)
        self.go("assign", 2, lambda E, s, v, env: self.assigned(E, s, v, env), "operator=")
        self.go("assign", 1, lambda E, s, v, env: self.assigned(E, s, v, env), "operator= to itself")
        self.go("copy", 2, lambda E, s, v, env: (self.at(E, s, env["a"], env, j, "a copy denotes another position"),
                                                 self.at(E, s, env["b"], env, j, "the copied iterator is changed")), "the copy constructor")
        self.go("make", 0, lambda E, s, v, env: self.at(E, s, env["a"], env, i, "an iterator made from a pointer does not denote it"), "the constructor")
        if self.name.startswith("c"):
            self.go("ref", 0, lambda E, s, v, env: self.at(E, s, env["a"], env, i, "an iterator made from an element does not denote it"), "the constructor")

    def start(self, E, n, offset, to):
        st = St()
        i, j, m = sym("i"), sym("j"), sym("length")
        E.assume(st, i); E.assume(st, j); E.assume(st, sub(m, i)); E.assume(st, sub(m, j)); E.assume(st, sub(const(LENGTH), m))
        if to is not None:
            E.assume(st, to); E.assume(st, sub(m, to))
        x = st.new(Obj("ext", scale(m, self.z), "unk", tag="the elements"))
        at = lambda k: P(x, scale(k, self.z))
        env = {"x": x}
        new = lambda k, c: st.new(Obj("ext", const(self.isz), "undef", tag="iterator %s" % k, cells=c))
        env["a"] = new("a", {ZERO: (8, at(i))} if n else {})
        env["b"] = new("b", {ZERO: (8, at(j))}) if n == 2 else env["a"]
        st.ghost["kept"] = (("@obj", x), ("@obj", env["a"]), ("@obj", env["b"]))
        env["i"] = i if n else None
        args = [P(env["a"])]
        if n == 0:
            args.append(at(i))
        elif n == 2 or offset is None and n == 1 and False:
            args.append(P(env["b"]))
        if offset is not None:
            args.append(L(64, offset))
        return st, args, env

    def go(self, op, n, then, where, offset=None, to=None):
        E = self.engine(True)
        st, args, env = self.start(E, n, offset, to)
        if op == "assign" and n == 1:
            args.append(P(env["a"]))
        E.at = self.where(where)

        def outcome(E, s, kind, v):
            E.oblige("iterator", s, "%s of %s" % (where, self.name))
            if kind != "ret":
                E.report("iterator", s, "%s ends by %s" % (where, kind))
                return
            then(E, s, v, env)
        E.hooks["outcome"] = outcome
        self.count += 1
        E.explore(st, self.fn(op), args)

    def compare(self, op, rel):
        i, j = sym("i"), sym("j")
        less, more = sub(sub(j, i), ONE), sub(sub(i, j), ONE)      # i < j, i > j
        holds = {"<": lambda o: o == "<", ">": lambda o: o == ">", "<=": lambda o: o != ">", ">=": lambda o: o != "<",
                 "==": lambda o: o == "=", "!=": lambda o: o != "="}[rel]

        def then(E, s, v, env):
            for s1, t in E.truth(s, v):
                for order, facts in (("<", [less]), (">", [more]), ("=", [sub(i, j), sub(j, i)])):
                    if holds(order) == t:
                        continue
                    s2 = s1.copy()
                    if all(E.assume(s2, f) for f in facts):
                        E.report("iterator", s2, "operator%s is %s for an iterator %s" % (rel, "true" if t else "false",
                                 {"<": "before the other", ">": "behind the other", "=": "at the position of the other"}[order]))
        self.go(op, 2, then, "operator" + rel)

    def number(self, E, s, v, want, msg):
        if v[0] != "l":
            raise Undecided("a distance that is not known")
        d = sub(v[2], want)
        if E.ent(s, d) and E.ent(s, scale(d, -1)):
            return
        E.report("iterator", s, msg)

    def pointer(self, E, s, v, env, want, msg):
        if v[0] != "p":
            raise Undecided("a position that is not known")
        d = sub(v[2], scale(want, self.z))
        if v[1] != env["x"] or not (E.ent(s, d) and E.ent(s, scale(d, -1))):
            E.report("iterator", s, msg)

    def at(self, E, s, oid, env, want, msg):
        r = E.load(s, P(oid), 8, "ptr")
        for s1, v in r:
            if v[0] == "u":
                E.report("iterator", s1, "the iterator is left without a position")
            else:
                self.pointer(E, s1, v, env, want, msg)

    def moved(self, E, s, v, env, to):
        if v != P(env["a"]):
            E.report("iterator", s, "the moved iterator is not returned")
            return
        self.at(E, s, env["a"], env, to, "the step does not arrive at the next position")

    def assigned(self, E, s, v, env):
        if v != P(env["a"]):
            E.report("iterator", s, "the assigned iterator is not returned")
            return
        self.at(E, s, env["a"], env, sym("j") if env["b"] != env["a"] else sym("i"), "the assigned iterator denotes another position")
        if env["b"] != env["a"]:
            self.at(E, s, env["b"], env, sym("j"), "the iterator it was assigned from is changed")


class Walks(Tables):
    """iterators over the entries of a hash table, for every arrangement of its buckets"""
    pre = ""

    def __init__(self, prog, kind):
        self.kind = kind
        Tables.__init__(self, prog)
        self.isz = cval(self.value_of(kind + "_size")[1])
        self.what = {"walk": "Table::iterator", "cwalk": "Table::const_iterator", "chain": "Table::chain_iterator", "cchain": "Table::const_chain_iterator"}[kind] + \
            " (include/eni/adt/bits/HashIterator.tcc)"

    def fn(self, name):
        return self.prog.one("^%s$" % name)

    def new(self, st):
        return st.new(Obj("ext", const(self.isz), "undef", tag="an iterator"))

    def step(self, todo, name, args, where, throws=None, kind=None):
        """[(state, value)] after an operation from every state; "throws" for a refusal"""
        out = []
        for st, env in todo:
            def then(s, v):
                out.append((s, env, v))
            self.go(st.copy(), "%s_%s" % (kind or self.kind, name), args(env), then, where, throws)
        return out

    def one(self, st, name, args, where, throws=None, kind=None):
        return [(s, v) for s, _, v in self.step([(st, None)], name, lambda e: args, where, throws, kind)]

    def positions(self, st, t, kp, start):
        """[(state, [iterator at each position from `start` on, the last past the end])]"""
        out = []
        i = self.new(st)
        todo = [(s, [i]) for s, _ in self.one(st, start, [P(i), P(t)] + kp, "begin")]
        end = None
        while todo:
            s, its = todo.pop()
            if len(its) > self.entries + 1:
                self.E.at = "the walk over " + self.what
                self.E.report("iterator", s, "the walk does not end after the last entry")
                continue
            e = self.new(s)
            for s1, _ in self.one(s, "last", [P(e), P(t)] + kp, "end"):
                for s2, v in self.one(s1, "eq", [P(its[-1]), P(e)], "operator=="):
                    for s3, isend in self.E.truth(s2, v):
                        if isend:
                            out.append((s3, its))
                            continue
                        n = self.new(s3)
                        for s4, _ in self.one(s3, "copy", [P(n), P(its[-1])], "the copy constructor"):
                            for s5, r in self.one(s4, "next", [P(n)], "operator++"):
                                if r != P(n):
                                    self.E.report("iterator", s5, "operator++ does not return the iterator")
                                    continue
                                todo.append((s5, its + [n]))
        return out

    def run(self, n):
        E = self.E
        chain = self.kind.endswith("chain")
        for st, t, keys, k in self.states(n, True):
            if E.findings:
                return
            self.entries = len(keys)
            kp = [self.key(st, k)]
            starts = ["first"] if chain else ["first", "found"]
            for start in starts:
                for s, its in self.positions(st.copy(), t, kp, start):
                    self.look(s, t, kp, its, start)
                    if start == "first":
                        self.other(s, t, kp, its)
        if n == 0:
            self.unset()

    def other(self, st, t, kp, its):
        """iterators of another table that has its entries in the same buckets"""
        s = st.copy()
        u = s.new(s.heap[t].copy())
        s.note("a second table with entries in the same buckets")
        for s1, far in self.positions(s, u, kp, "first"):
            for x in its[:-1]:
                for y in far:
                    for a, b in ((x, y), (y, x)):
                        for op, same in (("eq", True), ("ne", False)):
                            for s2, v in self.one(s1.copy(), op, [P(a), P(b)], "operator==" if same else "operator!="):
                                for s3, r in self.E.truth(s2, v):
                                    if r == same:
                                        self.E.report("iterator", s3, "an iterator at an entry compares equal to one of another table")

    def look(self, st, t, kp, its, start):
        E = self.E
        bad = lambda s, m: E.report("iterator", s, m)
        last = its[-1]
        # equal exactly at the same position
        base = st.copy()
        again = self.new(base)
        for s, _ in self.one(base, start, [P(again), P(t)] + kp, "begin"):
            for x in range(len(its)):
                for s1, v in self.one(s.copy(), "eq", [P(its[x]), P(again)], "operator=="):
                    for s2, r in E.truth(s1, v):
                        if r != (x == 0):
                            bad(s2, "iterators at different positions compare equal" if r else "iterators at the same position do not compare equal")
                for s1, v in self.one(s.copy(), "ne", [P(its[x]), P(again)], "operator!="):
                    for s2, r in E.truth(s1, v):
                        if r != (x != 0):
                            bad(s2, "operator!= is not the opposite of operator==")
        for x in range(len(its)):
            for y in range(len(its)):
                for s1, v in self.one(st.copy(), "eq", [P(its[x]), P(its[y])], "operator=="):
                    for s2, r in E.truth(s1, v):
                        if r != (x == y):
                            bad(s2, "iterators at different positions compare equal" if r else "iterators at the same position do not compare equal")
        # what they give
        seen = []
        for x, i in enumerate(its):
            for op in ("deref", "arrow") + (("cderef", "carrow") if not self.kind.startswith("c") or self.kind == "chain" else ()):
                for s1, v in self.one(st.copy(), op, [P(i)], "using the iterator", "logic_error"):
                    if i == last:
                        if v != "throws":
                            bad(s1, "using an iterator past the end does not throw")
                    elif v == "throws":
                        bad(s1, "using an iterator at an entry throws")
                    elif op == "deref":
                        seen.append(v)
                    elif v != seen[x]:
                        bad(s1, "the same iterator gives different entries")
        if len(set(seen)) != len(seen):
            bad(st, "iterators at different positions give the same entry")
        if not self.kind.startswith("c") or self.kind == "chain":      # as an iterator over constant entries
            for x, i in enumerate(its):
                s = st.copy()
                c = self.new(s)
                for s1, _ in self.one(s, "conv", [P(c), P(i)], "the conversion to a constant iterator"):
                    for s2, v in self.one(s1, "deref", [P(c)], "using the iterator", "logic_error", "c" + self.kind):
                        if v != (seen[x] if i != last else "throws"):
                            bad(s2, "the constant iterator made from an iterator denotes another position")
                    self.rest(s1, c, seen[x + 1:] if i != last else None, bad)
        # moving one past the end
        for op in ("next", "next_old"):
            for x, i in enumerate(its):
                s = st.copy()
                r = self.new(s)
                for s1, v in self.one(s, op, [P(i)] + ([P(r)] if op == "next_old" else []), "operator++" + ("(int)" if op == "next_old" else ""), "logic_error"):
                    if i == last:
                        if v != "throws" and not self.kind.endswith("chain"):
                            bad(s1, "moving an iterator past the end does not throw")
                        continue
                    if v == "throws":
                        bad(s1, "moving an iterator that is at an entry throws")
                        continue
                    self.same(s1, i, its[x + 1], "a step does not arrive at the next entry")
                    if op == "next_old":
                        c = self.new(s1)      # the old position: one more step from it arrives where the other is
                        for s2, v2 in self.one(s1.copy(), "deref", [P(r)], "using the iterator", "logic_error"):
                            if v2 != seen[x]:
                                bad(s2, "post-increment does not give the old position")
        # copies and assignment
        for x in its:
            for y in its:
                s = st.copy()
                u = self.new(s)
                for s1, _ in self.one(s, "copy", [P(u), P(x)], "the copy constructor"):
                    self.same(s1.copy(), u, x, "a copy denotes another position")
                    for s2, v in self.one(s1, "assign", [P(u), P(y)], "operator="):
                        if v != P(u):
                            bad(s2, "the assigned iterator is not returned")
                            continue
                        self.same(s2, u, y, "the assigned iterator denotes another position")
            for s2, v in self.one(st.copy(), "assign", [P(x), P(x)], "operator= to itself"):
                if v != P(x):
                    bad(s2, "the assigned iterator is not returned")
                    continue
                self.same(s2, x, x, "an iterator assigned to itself denotes another position")
                if x != last:
                    for s3, v3 in self.one(s2, "deref", [P(x)], "using the iterator", "logic_error"):
                        if v3 != seen[its.index(x)]:
                            bad(s3, "an iterator assigned to itself denotes another position")

    def rest(self, st, c, entries, bad):
        """the walk goes on from a constant iterator made from an iterator as it would have from that"""
        todo = [st.copy()]
        for want in (entries or []) + ["throws"] if entries is not None else []:
            went = []
            for s in todo:
                for s1, _ in self.one(s, "next", [P(c)], "operator++", "logic_error", "c" + self.kind):
                    for s2, v in self.one(s1.copy(), "deref", [P(c)], "using the iterator", "logic_error", "c" + self.kind):
                        if v != want:
                            bad(s2, "a walk that goes on from the constant iterator made from an iterator does not meet the remaining entries")
                        else:
                            went.append(s1)
            todo = went

    def same(self, st, a, b, msg):
        for s1, v in self.one(st.copy(), "eq", [P(a), P(b)], "operator=="):
            for s2, r in self.E.truth(s1, v):
                if not r:
                    self.E.report("iterator", s2, msg)

    def unset(self):
        """an iterator that was never given a position"""
        st = self.start()
        i = self.new(st)
        for s, _ in self.one(st, "make", [P(i)], "the default constructor"):
            for op in ("deref", "arrow"):
                for s1, v in self.one(s.copy(), op, [P(i)], "using the iterator", "logic_error"):
                    if v != "throws":
                        self.E.report("iterator", s1, "using an iterator without a position does not throw")
            self.same(s, i, i, "an iterator without a position is not equal to itself")


KINDS = ("iterator", "memory", "uninit", "map")
PROG = {}


def job(what):
    import properties
    kind, name, n, i, of = what
    out = properties.Result()
    if kind == "pointer":
        p = Pointers(PROG["iter"], name)
        p.run()
        for E in p.engines:
            out.add_engine(E, KINDS)
        out.extra["operations of vector iterators"] = ["%s: %d" % (name, p.count)]
    elif kind == "walk":
        w = Walks(PROG["iter"], name)
        w.part = (i, of)
        try:
            w.run(n)
        except Undecided as u:
            w.E.give_up(St(), str(u))
        out.add_engine(w.E, KINDS)
        out.extra["states"] = [(name, n, i, w.n_states)]
    else:       # assignment of the containers themselves
        out = check_hash.job((kind, name, n, i, of))
    return out


def decide(pid, kinds, tier):
    import properties, jobs
    r = properties.Result("abstract interpretation of every operation of the vector iterators at any positions, and of the hash table iterators at every position of every small table", "bounded")
    r.rules = ["each of the six comparisons is true exactly for the orders of the two positions it names", "an offset, a step or a difference of iterators is that of their positions; post-increment gives the old one",
               "hash table iterators are equal exactly at the same position of the same walk; past the end they throw when used",
               "an assignment operator returns the object it assigned to, which then denotes what the other does"]
    r.assumptions += ["vectors of at most 2^40 elements", "hash tables: as in C12, up to %d buckets" % (4 if tier == "quick" else 5)]
    check_hash.PROG["hash"] = PROG["iter"] = ir.load(["iter"])
    todo = [("pointer", x, 0, 0, 1) for x in ("bytes", "cbytes", "items", "citems", "longs")]
    for x in ("walk", "cwalk", "chain", "cchain"):
        for n in range(0, (4 if tier == "quick" else 5) + 1):
            of = 1 if n < 3 else 8 if n == 3 else 32
            todo += [("walk", x, n, i, of) for i in range(of)]
    todo += [(k, op, n, 0, 1) for k in ("table", "map") for op in check_hash.ASSIGN for n in range(0, 3)]
    n = 0
    for j, q in jobs.each(job, todo):
        if q is None:
            r.undecided.append(jobs.undecided("%s %s" % j[:2]))
            continue
        r.merge(q)
        if any(f.exact for f in q.findings):
            break
    r.extra["operations of hash table iterators followed"] = sum(x[3] for x in r.extra.pop("states", []))
    r.extra.pop("tables", None)
    if not r.obligations:
        raise ir.AnalysisBroken("nothing analysed")
    seen = set()
    r.findings = [f for f in r.findings if not (f.ident() in seen or seen.add(f.ident()))]
    return r


if __name__ == "__main__":
    import sys
    check_hash.PROG["hash"] = PROG["iter"] = ir.load(["iter"])
    t0 = time.time()
    for x in sys.argv[2:] or ("bytes", "cbytes", "items", "citems", "longs", "walk", "cwalk", "chain", "cchain"):
        for n in range(int(sys.argv[1]) + 1):
            if not x.endswith(("walk", "chain")):
                if n: break
                q = job(("pointer", x, 0, 0, 1))
            else:
                q = job(("walk", x, n, 0, 1))
            print(x, n, q.obligations, q.discharged, q.extra, "%.1f" % (time.time() - t0))
            for f in q.findings[:4]: print(f.text())
            for f in q.undecided[:4]: print("UND", f.text())
