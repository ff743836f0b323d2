"""C11: every operation of Vector from every state, with arguments of every kind.

The storage is an array of symbolic length holding runs of the old elements; each operation is followed from an
unused vector and from one with arbitrary size and capacity.  When it returns, the elements must be those that
the same operation on a sequence gives; when it throws, the condition for that error must hold exactly."""
import os, re, time
import ir, models, arrays
from arrays import T, R, chunk, same, part, total
from lin import const, sym, add, sub, scale, ZERO
from engine import *
from models import ret

PTRDIFF = (1 << 63) - 1
U64 = (1 << 64) - 1


class NeedPick(Exception):
    def __init__(self, name):
        self.name = name


class Skip(Exception):
    pass


class Vectors:
    only = None      # number of the one operation to look at
    pick = {}        # constants in place of the numbers
    title = ""

    def __init__(self, prog, t, esz, kinds, small=False):
        self.small = small
        self.prog = prog; self.t = t; self.esz = esz; self.kinds = kinds
        self.V = "eni::Vector<%s>" % t
        self.engines = []
        self.ops = 0

    def fn(self, sig, ret_=""):
        l = [f for f in self.prog.functions.values() if f.defined and f.dem == self.V + "::" + sig]
        if not l:
            raise ir.AnalysisBroken("anchor not found: %s::%s" % (self.V, sig))
        return l[-1] if "Vector(" in sig.split("::")[-1][:8] else l[0]

    def engine(self):
        E = Engine(self.prog, max_steps=120000, deadline=time.time() + 60)
        E.short_unroll = 90 if self.small else 2
        E.joins_lossy = True
        models.install(E)
        self.A = arrays.Arrays(E, {self.t: self.esz})
        E.model(r"^(malloc|calloc)$", self.alloc)
        E.model(r"^realloc$", self.realloc)
        E.model(r"^eni::Exception<.*>::Exception\(\)$", self.exception)
        E.hooks["terminate"] = lambda E, st, d: E.report("elements", st, "the process is ended by %s" % d)
        return E

    # ------------------------------------------------------------ memory
    def exception(self, E, st, ins, a, d):
        o = st.mut(a[0][1])
        o.init = "unk"
        return [ret(st)]

    def fresh_storage(self, E, s, e, zero):
        z = self.esz
        q = self.A.index(z, e)
        if q is None:
            q = E.quot(s, 64, e, z)
        return s.new(Obj("heap", e, "undef", tag="the storage", seq=(R(("zero",) if zero else arrays.UNDEF, q),),
                         attr={"onload": "arr-load", "onstore": "arr-store", "esz": z, "by": "malloc"}))

    def alloc(self, E, st, ins, a, d):
        out = []
        if d == "calloc":
            rs = []
            for s0, n in E.norm_u(st, 64, E.lin_of(st, a[0])):
                for s1, m in E.norm_u(s0, 64, E.lin_of(s0, a[1])):
                    p = scale(n, m[0]) if not m[1] else scale(m, n[0]) if not n[1] else None
                    if p is None:
                        raise Undecided("a size that is a product")
                    a1, b1 = E.split(s1, sub(const(PTRDIFF), p))
                    if b1 is not None:          # calloc refuses what does not fit
                        b1.ghost["null"] = 1
                        out.append(ret(b1, NULL))
                    if a1 is not None:
                        rs.append((a1, p))
        else:
            rs = []
            for s0, n in E.norm_u(st, 64, E.lin_of(st, a[0])):
                a1, b1 = E.split(s0, sub(const(PTRDIFF), n))
                if b1 is not None:
                    b1.ghost["null"] = 1
                    out.append(ret(b1, NULL))
                if a1 is not None:
                    rs.append((a1, n))
        for s, e in rs:
            f = s.copy()
            f.ghost["null"] = 1
            f.note("%s returns null" % d)
            out.append(ret(f, NULL))
            some, none = E.split(s, sub(e, ONE))
            if none is not None:
                none2 = none.copy()
                out.append(ret(none2, NULL))      # of no bytes: null or not
                out.append(ret(none, P(self.fresh_storage(E, none, ZERO, d == "calloc"))))
            if some is not None:
                out.append(ret(some, P(self.fresh_storage(E, some, e, d == "calloc"))))
        return out

    def realloc(self, E, st, ins, a, d):
        v = a[0]
        if v[0] != "p":
            raise Undecided("realloc of an unknown pointer")
        out = []
        for s, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            fail = s.copy()
            fail.ghost["null"] = 1
            fail.note("realloc returns null")
            out.append(ret(fail, NULL))
            ok, big = E.split(s, sub(const(PTRDIFF), e))
            if ok is None:
                continue
            s = ok
            if v[1] == NULLOID:
                out.append(ret(s, P(self.fresh_storage(E, s, e, False))))
                continue
            o = E.deref(s, v, 1, "realloc")
            if o is None:
                continue
            if v[2] != ZERO or o.attr.get("by") != "malloc":
                E.report("elements", s, "realloc of a pointer that was not allocated")
                continue
            n = self.A.index(self.esz, e)
            if n is None:
                n = E.quot(s, 64, e, self.esz)
            old = total(o.seq)
            grow, shrink = E.split(s, sub(n, old))
            for s2, up in ((grow, True), (shrink, False)):
                if s2 is None:
                    continue
                oid = self.fresh_storage(E, s2, e, False)
                if up:
                    self.A.put(s2, oid, s2.heap[v[1]].seq + (R(arrays.UNDEF, sub(n, old)),))
                    s2.mut(v[1]).life = "freed"
                    out.append(ret(s2, P(oid)))
                else:
                    for s3, l, r in arrays.cut(E, s2, s2.heap[v[1]].seq, n):
                        self.A.put(s3, oid, l)
                        s3.mut(v[1]).life = "freed"
                        out.append(ret(s3, P(oid)))
        return out

    # ------------------------------------------------------------ layout
    def layout(self):
        """offsets of the members, from what the accessors read"""
        off = {}
        for name, sig in (("data", "data()"), ("size", "size() const"), ("cap", "capacity() const")):
            E = self.engine()
            st = St()
            o = st.new(Obj("ext", None, "unk", tag="a vector"))
            res = []
            E.hooks["outcome"] = lambda E, s, k, v: res.append((s, k, v))
            E.explore(st, self.fn(sig), [P(o)])
            if len(res) != 1 or res[0][1] != "ret":
                raise Undecided("%s does not return a member" % sig)
            s, k, v = res[0]
            c = [(a[0], z) for a, (z, x) in s.heap[o].cells.items() if x == v and not a[1]]
            if len(c) != 1 or c[0][1] != 8:
                raise Undecided("%s does not return a member" % sig)
            off[name] = c[0][0]
        self.off = off
        E = self.engine()
        res = []
        E.hooks["outcome"] = lambda E, s, k, v: res.append(v)
        st = St()
        E.explore(st, self.fn("max_size() const"), [P(st.new(Obj("ext", None, "unk")))])
        if len(res) != 1 or not isconst(res[0]):
            raise Undecided("max_size is no constant")
        self.max = cval(res[0])

    def vec(self, E, st, name, used):
        """a vector in an arbitrary state; returns its object"""
        o = Obj("stack", None, "undef", tag=name, attr={"vec": name})
        if not used:
            o.cells = {const(self.off["data"]): (8, NULL), const(self.off["size"]): (8, C(64, 0)), const(self.off["cap"]): (8, C(64, 0))}
            return st.new(o), ZERO, None
        n, c = self.number_of("size of " + name), self.number_of("capacity of " + name)
        p = sym("allocation of " + name) if not self.small else const(c[0] + c[0] // 2)
        for e in (n, sub(c, n), sub(p, c), sub(const(self.max), p), sub(const(PTRDIFF // self.esz), p)):
            if not E.assume(st, e):
                raise Skip()
        d = self.A.make(st, "heap", self.esz, (T("old " + name, ZERO, n), R(arrays.UNDEF, sub(p, n))), "the storage", by="malloc", size=p)
        o.cells = {const(self.off["data"]): (8, P(d)), const(self.off["size"]): (8, L(64, n)), const(self.off["cap"]): (8, L(64, c))}
        return st.new(o), n, d

    def number_of(self, name):
        if not self.small:
            return sym(name)
        if name not in self.pick:
            raise NeedPick(name)
        return const(self.pick[name])

    def check_state(self, E, st, oid, name):
        """[(state, size, storage or None)] after checking the class invariant"""
        o = st.heap[oid]
        d, n, c = [o.cells.get(const(self.off[k]), (0, ("u", 64)))[1] for k in ("data", "size", "cap")]
        if "u" in (d[0], n[0], c[0]):
            E.report("elements", st, "%s is left without contents" % name)
            return []
        if n[0] != "l" or c[0] != "l" or d[0] != "p":
            raise Undecided("contents of %s are not known" % name)
        out = []
        for s1, en in E.norm_u(st, 64, n[2]):
            for s, ec in E.norm_u(s1, 64, c[2]):
                ok, bad = E.split(s, sub(ec, en))
                if bad is not None:
                    E.report("elements", bad, "%s has more elements than capacity" % name)
                if ok is None:
                    continue
                s = ok
                if d[1] == NULLOID:
                    none, some = E.split(s, scale(ec, -1))
                    if some is not None:
                        E.report("elements", some, "%s has a capacity without storage" % name)
                    if none is not None:
                        out.append((none, ZERO, None))
                    continue
                q = E.obj(s, d[1])
                if q is None or q.life != "live":
                    E.report("elements", s, "%s keeps storage that was released" % name)
                    continue
                if "esz" not in q.attr or q.attr.get("by") != "malloc" or d[2] != ZERO:
                    E.report("elements", s, "%s keeps storage that was not allocated for it" % name)
                    continue
                ok, bad = E.split(s, sub(q.size, scale(ec, self.esz)))
                if bad is not None:
                    E.report("elements", bad, "%s claims more capacity than its storage has" % name)
                if ok is not None:
                    out.append((ok, en, d[1]))
        return out

    def contents(self, E, st, d, n):
        """[(state, the elements in use)]"""
        if d is None:
            return [(st, ())]
        return [(s, l) for s, l, r in arrays.cut(E, st, st.heap[d].seq, n)]

    # ------------------------------------------------------------ arguments
    def arg(self, E, st, kind, v):
        """[(state, value, description)]"""
        oid, n, d = v
        A, z = self.A, self.esz
        if kind == "own-index":          # position of an iterator into the vector
            pass

    def source(self, E, st, tag, who):
        n = self.number_of("length of " + tag)
        E.assume(st, n); E.assume(st, sub(const(PTRDIFF // self.esz), n))
        return self.A.make(st, "ext", self.esz, (T(tag, ZERO, n),), tag), n

    def iterator(self, st, v):
        return P(st.new(Obj("stack", const(8), "undef", tag="an iterator", cells={ZERO: (8, v)})))

    def explore(self, title, sig, start, expect, kinds):
        """start(E, st) -> [(state, args, env)], expect(E, st, env, args) -> [(state, wanted, expected contents or None, check)]"""
        self.ops += 1
        if self.only is not None and self.only != self.ops:
            return
        self.title = title
        E = self.engine()
        self.engines.append((title, E))
        for st, args, env in start(E):
            st.ghost["env"] = pack(env)

            def outcome(E, st, kind, val, args=args):
                self.outcome(E, st, kind, val, unpack(st.ghost["env"]), args, title, expect)
            E.hooks["outcome"] = outcome
            E.explore(st, self.fn(sig), args)
        return E

    def outcome(self, E, st, kind, val, env, args, title, expect):
        E.oblige("elements", st, title)
        self.where = title
        got = "ret" if kind == "ret" else None
        if kind == "throw":
            ti = str(val[0])
            got = "out_of_range" if "out_of_range" in ti else "length_error" if "length_error" in ti else "bad_alloc" if "bad_alloc" in ti else ti
        elif kind != "ret":
            E.report("elements", st, "%s ends the process" % title, title)
            return
        for s, want, seqs, more in expect(E, st, env):
            if got == "bad_alloc" and st.ghost.get("null") and want in ("ret", "length_error"):
                if want == "length_error":
                    E.report("elements", s, "%s of too many elements gives %s instead of the length error" % (title, got), title)
                    continue
            elif got != want:
                E.report("elements", s, "%s: %s instead of %s" % (title, NAMES.get(got, got), NAMES.get(want, want)), title)
                continue
            live = set()
            states = [s]
            for oid, name, content in seqs:
                nxt = []
                if oid not in s.heap:
                    continue
                for x in states:
                    for s2, n, d in self.check_state(E, x, oid, name):
                        live.add(d)
                        if got != "ret" or content is None:
                            nxt.append(s2)
                            continue
                        w = total(content)
                        for s3, sgn in self.eq(E, s2, n, w):
                            if sgn:
                                E.report("elements", s3, "%s leaves %s with the wrong number of elements" % (title, name), title)
                                continue
                            for s4, q in self.contents(E, s3, d, n):
                                for s5, diff in same(E, s4, q, content):
                                    if diff:
                                        E.report("elements", s5, "after %s, %s of %s" % (title, diff, name), title)
                                    else:
                                        nxt.append(s5)
                states = nxt
            for x in states:
                for oid, o in x.heap.items():
                    if o.kind == "heap" and o.life == "live" and o.attr.get("by") == "malloc" and oid not in live and oid not in env.get("keep", ()):
                        E.report("elements", x, "%s leaks storage" % title, title)
                if got == "ret" and more:
                    more(E, x, val)

    def eq(self, E, st, a, b):
        out = []
        d = sub(a, b)
        lo, less = E.split(st, d)
        if less is not None:
            out.append((less, True))
        if lo is not None:
            e, m = E.split(lo, scale(d, -1))
            if m is not None:
                out.append((m, True))
            if e is not None:
                out.append((e, False))
        return out

    def is_at(self, E, st, v, oid, index, title, what="the result"):
        """the pointer v denotes the element at index of the vector's storage"""
        d = st.heap[oid].cells[const(self.off["data"])][1]
        if v[0] != "p":
            raise Undecided("an unknown pointer")
        if v[1] != d[1]:
            E.report("elements", st, "%s: %s does not denote a position of the vector" % (title, what), title)
            return
        for s, bad in self.eq(E, st, v[2], add(d[2], scale(index, self.esz))):
            if bad:
                E.report("elements", s, "%s: %s denotes another position" % (title, what), title)

    # ------------------------------------------------------------ the operations
    def run(self, kinds):
        self.layout()
        A = self
        z, t, mx = self.esz, self.t, self.max
        cr = t + " const&"
        V = "v"

        def states(E, both=True, fresh_=False):
            for used in (False, True) if both else (True,):
                st = St()
                v = self.vec(E, st, V, used)
                yield st, v

        def old(v):
            return () if v[2] is None else (T("old v", ZERO, v[1]),)

        def num(E, st, name):
            n = self.number_of(name)
            E.assume(st, n); E.assume(st, sub(const(U64), n))
            return n

        def values(E, st, v):
            """reference arguments: an element of its own, or one of the vector's"""
            s = st.copy()
            o = s.new(Obj("ext", const(z), "undef", tag="the value", cells={ZERO: (z, ("r", "the value"))}))
            yield s, P(o), ("r", "the value")
            if v[2] is not None:
                s = st.copy()
                i = num(E, s, "its index")
                if E.assume(s, sub(sub(v[1], i), ONE)):
                    yield s, P(v[2], scale(i, z)), ("e", "old v", i)

        def ranges(E, st, v, own=False):
            """a pair of iterators over an array outside, given as pointers, with the chunks they denote"""
            s = st.copy()
            src, n = self.source(E, s, "the range", V)
            a, b = num(E, s, "first"), num(E, s, "last")
            if all([E.assume(s, e) for e in (a, sub(b, a), sub(n, b))]):
                yield s, P(src, scale(a, z)), P(src, scale(b, z)), (T("the range", a, b),)
            s = st.copy()
            yield s, NULL, NULL, ()
            if own and v[2] is not None:
                s = st.copy()
                a, b = num(E, s, "first"), num(E, s, "last")
                if all([E.assume(s, e) for e in (a, sub(b, a), sub(v[1], b))]):
                    yield s, P(v[2], scale(a, z)), P(v[2], scale(b, z)), (T("old v", a, b),)

        def plain(content=None, more=None):
            def f(E, st, env):
                return [(st, "ret", [(env["v"], V, content(env) if content else env["old"])], more and (lambda E, s, val: more(E, s, val, env)))]
            return f

        def cases(E, st, conds, env, content, more=None):
            """conds: [(linear expression, error when it is negative)]"""
            out = []
            for e, err in conds:
                ok, bad = E.split(st, e)
                if bad is not None:
                    out.append((bad, err, [(env["v"], V, None)], None))
                if ok is None:
                    return out
                st = ok
            for s, c in content(E, st, env):
                out.append((s, "ret", [(env["v"], V, c)], more and (lambda E, x, val: more(E, x, val, env))))
            return out

        def simple(sig, more, both=True, title=None, pre=None, content=None):
            def start(E):
                for st, v in states(E, both):
                    env = {"v": v[0], "old": old(v), "n": v[1]}
                    if pre and not pre(E, st, env):
                        continue
                    yield st, [P(v[0])] + env.get("args", []), env
            self.explore(title or sig, sig, start, plain(content, more), kinds)

        # ---- observers
        simple("size() const", lambda E, s, val, env: self.number(E, s, val, env["n"], "size"))
        simple("empty() const", lambda E, s, val, env: self.boolean(E, s, val, env["n"]))
        for c in ("", " const"):
            for nm, pos in (("begin", lambda env: ZERO), ("end", lambda env: env["n"])):
                def pre(E, st, env):
                    env["slot"] = st.new(Obj("stack", const(8), "undef", tag="an iterator"))
                    return True
                def more(E, s, val, env, nm=nm, pos=pos):
                    self.is_at(E, s, s.heap[env["slot"]].cells[ZERO][1], env["v"], pos(env), nm + "()")
                self.sret(nm + "()" + c, states, old, pre, more, plain)
        simple("data()", lambda E, s, val, env: self.is_at(E, s, val, env["v"], ZERO, "data()"))
        simple("front()", lambda E, s, val, env: self.is_at(E, s, val, env["v"], ZERO, "front()"), pre=lambda E, st, env: E.assume(st, sub(env["n"], ONE)))
        simple("back()", lambda E, s, val, env: self.is_at(E, s, val, env["v"], sub(env["n"], ONE), "back()"), pre=lambda E, st, env: E.assume(st, sub(env["n"], ONE)))
        simple("clear()", None, content=lambda env: ())
        simple("shrink_to_fit()", None)
        for c in ("", " const"):
            def pre(E, st, env):
                env["i"] = num(E, st, "index")
                env["args"] = [L(64, env["i"])]
                return E.assume(st, env["i"]) and E.assume(st, sub(sub(env["n"], ONE), env["i"]))
            simple("operator[](unsigned long)" + c, lambda E, s, val, env: self.is_at(E, s, val, env["v"], env["i"], "operator[]"), pre=pre)

            def start(E):
                for st, v in states(E):
                    i = num(E, st, "index")
                    yield st, [P(v[0]), L(64, i)], {"v": v[0], "old": old(v), "n": v[1], "i": i}
            self.explore("at", "at(unsigned long)" + c, start,
                         lambda E, st, env: cases(E, st, [(sub(sub(env["n"], env["i"]), ONE), "out_of_range")], env,
                                                  lambda E, s, env: [(s, env["old"])],
                                                  lambda E, s, val, env: self.is_at(E, s, val, env["v"], env["i"], "at")), kinds)

        # ---- the destructor and the constructors
        def start(E):
            for st, v in states(E):
                yield st, [P(v[0])], {"v": v[0], "old": old(v), "n": v[1]}
        self.explore("destruction", "~Vector()", start, lambda E, st, env: [(st, "ret", [], None)], kinds)

        def newvec(E):
            st = St()
            return st, st.new(Obj("stack", None, "undef", tag="a new vector"))

        def make(sig, title, args, conds, content):
            def start(E):
                st, o = newvec(E)
                for s, a, env in args(E, st):
                    env.update(v=o)
                    yield s, [P(o)] + a, env

            def expect(E, st, env):
                # a constructor that throws leaves nothing behind
                r = cases(E, st, conds(env), env, lambda E, s, env: content(E, s, env))
                return [(s, w, q if w == "ret" else [], m) for s, w, q, m in r] if st.exc is None else \
                    [(s, w, [], m) for s, w, q, m in r]
            self.explore(title, sig, start, expect, kinds)
        limit = lambda env: [(sub(const(mx), env["n"]), "length_error")]
        make("Vector()", "default construction", lambda E, st: [(st, [], {})], lambda env: [], lambda E, s, env: [(s, ())])

        def a1(E, st):
            n = num(E, st, "count")
            yield st, [L(64, n)], {"n": n}
        make("Vector(unsigned long)", "construction of a number of elements", a1, limit, lambda E, s, env: [(s, None)])

        def a2(E, st):
            n = num(E, st, "count")
            for s, p, x in values(E, st, (0, 0, None)):
                yield s, [L(64, n), p], {"n": n, "x": x}
        make("Vector(unsigned long, %s)" % cr, "construction of equal elements", a2, limit, lambda E, s, env: [(s, (R(env["x"], env["n"]),))])

        def a3(E, st):
            src, n = self.source(E, st, "the std::vector", V)
            yield st, [P(st.new(Obj("ext", None, "undef", tag="a std::vector", attr={"vector": ("@obj", src)})))], {"n": n, "tag": "the std::vector"}
        whole = lambda E, s, env: [(s, (T(env["tag"], ZERO, env["n"]),))]
        make("Vector(%s const&)" % self.stdvec(), "construction from a std::vector", a3, limit, whole)

        def a4(E, st):
            for used in (False, True):
                s = st.copy()
                w = self.vec(E, s, "w", used)
                yield s, [P(w[0])], {"n": w[1], "w": w, "keep": (w[2],)}
        make("Vector(%s const&)" % self.V, "copy construction", a4, limit,
             lambda E, s, env: [(s, () if env["w"][2] is None else (T("old w", ZERO, env["n"]),))])

        def a5(E, st):
            src, n = self.source(E, st, "the list", V)
            yield st, [P(src), L(64, n)], {"n": n, "tag": "the list"}
        make("Vector(std::initializer_list<%s>)" % t, "construction from a list", a5, limit, whole)

        # ---- growth
        def op(sig, title, args, conds, content, more=None, sret=False):
            def start(E):
                for st, v in states(E):
                    for s, a, env in args(E, st, v):
                        env.update(v=v[0], old=old(v), n=v[1], d=v[2])
                        pre = []
                        if sret:
                            env["slot"] = s.new(Obj("stack", const(8) if sret == "iterator" else const(z), "undef", tag="the result"))
                            pre = [P(env["slot"])]
                        yield s, pre + [P(v[0])] + a, env
            self.explore(title, sig, start, lambda E, st, env: cases(E, st, conds(env), env, content, more), kinds)

        def cnt(E, st, v):
            n = num(E, st, "count")
            yield st, [L(64, n)], {"k": n}
        klimit = lambda env: [(sub(const(mx), env["k"]), "length_error")]
        op("reserve(unsigned long)", "reserve", cnt, klimit, lambda E, s, env: [(s, env["old"])],
           lambda E, s, val, env: self.capacity(E, s, env["v"], env["k"]))

        def resized(fill):
            def f(E, s, env):
                out = []
                more_, less = E.split(s, sub(env["k"], env["n"]))
                if more_ is not None:
                    out.append((more_, env["old"] + (R(fill(env), sub(env["k"], env["n"])),)))
                if less is not None:
                    for s2, l, r in arrays.cut(E, less, env["old"], env["k"]):
                        out.append((s2, l))
                return out
            return f
        op("resize(unsigned long)", "resize", cnt, klimit, resized(lambda env: self.default()))

        def cntval(E, st, v):
            n = num(E, st, "count")
            for s, p, x in values(E, st, v):
                yield s, [L(64, n), p], {"k": n, "x": x}
        op("resize(unsigned long, %s)" % cr, "resize with a value", cntval, klimit, resized(lambda env: env["x"]))
        op("assign(unsigned long, %s)" % cr, "assign of equal elements", cntval, klimit, lambda E, s, env: [(s, (R(env["x"], env["k"]),))])

        def rng(own):
            def f(E, st, v):
                for s, a, b, c in ranges(E, st, v, own):
                    yield s, [self.iterator(s, a), self.iterator(s, b)], {"c": c, "k": total(c)}
            return f
        op("assign(eni::PointerIterator<%s const>, eni::PointerIterator<%s const>)" % (t, t), "assign of a range", rng(True), klimit,
           lambda E, s, env: [(s, env["c"])])

        def lst(E, st, v):
            src, n = self.source(E, st, "the list", V)
            yield st, [P(src), L(64, n)], {"c": (T("the list", ZERO, n),), "k": n}
        op("assign(std::initializer_list<%s>)" % t, "assign of a list", lst, klimit, lambda E, s, env: [(s, env["c"])])
        self_ref = lambda E, s, val, env: self.itself(E, s, val, env)
        op("operator=(std::initializer_list<%s>)" % t, "assignment of a list", lst, klimit, lambda E, s, env: [(s, env["c"])], self_ref)

        def other(E, st, v):
            for used in (False, True):
                s = st.copy()
                w = self.vec(E, s, "w", used)
                yield s, [P(w[0])], {"c": () if w[2] is None else (T("old w", ZERO, w[1]),), "k": w[1], "keep": (w[2],)}
            yield st, [P(v[0])], {"c": old(v), "k": v[1]}
        op("operator=(%s const&)" % self.V, "copy assignment", other, lambda env: [], lambda E, s, env: [(s, env["c"])], self_ref)

        def val(E, st, v):
            for s, p, x in values(E, st, v):
                yield s, [p], {"x": x}
        one = lambda env: [(sub(sub(const(mx), env["n"]), ONE), "length_error")]
        op("push_back(%s)" % cr, "push_back", val, one, lambda E, s, env: [(s, env["old"] + (chunk(env["x"]),))])
        f = [x for x in self.prog.functions.values() if x.defined and x.dem.startswith("void %s::emplace_back<" % self.V)]
        if f:
            save = self.fn
            self.fn = lambda sig, f=f[0]: f
            op("emplace_back", "emplace_back", val, one, lambda E, s, env: [(s, env["old"] + (chunk(env["x"]),))])
            self.fn = save

        # ---- insertion
        def inserted(E, s, env):
            return [(s2, l + tuple(env["c"]) + r) for s2, l, r in arrays.cut(E, s, env["old"], env["i"])]

        def inside(env):
            return [(sub(env["n"], env["i"]), "out_of_range"), (sub(sub(const(mx), env["n"]), env["k"]), "length_error")]

        def with_index(args):
            def f(E, st, v):
                i = num(E, st, "index")
                for s, a, env in args(E, st, v):
                    env["i"] = i
                    yield s, [L(64, i)] + a, env
            return f

        def with_iterator(args):
            def f(E, st, v):
                for s, a, env in args(E, st, v):
                    i = ZERO
                    if v[2] is not None:
                        i = num(E, s, "index")
                        if not E.assume(s, sub(v[1], i)):
                            continue
                    env["i"] = i
                    yield s, [self.iterator(s, P(v[2], scale(i, z)) if v[2] is not None else NULL)] + a, env
            return f

        def at_index(E, s, val_, env):
            self.is_at(E, s, s.heap[env["slot"]].cells[ZERO][1], env["v"], env["i"], "insert")

        def one_value(E, st, v):
            for s, p, x in values(E, st, v):
                yield s, [p], {"c": (chunk(x),), "k": ONE}

        def n_values(E, st, v):
            n = num(E, st, "count")
            for s, p, x in values(E, st, v):
                yield s, [L(64, n), p], {"c": (R(x, n),), "k": n}
        it, cit = "eni::PointerIterator<%s>" % t, "eni::PointerIterator<%s const>" % t
        for rest, args, title in ((cr, one_value, "insert of an element"), ("unsigned long, " + cr, n_values, "insert of equal elements"),
                                  ("%s, %s" % (cit, cit), rng(False), "insert of a range"), ("std::initializer_list<%s>" % t, lst, "insert of a list")):
            op("insert(unsigned long, %s)" % rest, title, with_index(args), inside, inserted)
            op("insert(%s, %s)" % (it, rest), title + " at an iterator", with_iterator(args), inside, inserted, at_index, sret="iterator")

        # ---- removal
        def erased(E, s, env):
            out = []
            for s2, l, m, r in part(E, s, env["old"], env["i"], sub(env["j"], env["i"])):
                out.append((s2, l + r))
            return out

        def e1(E, st, v):
            i = num(E, st, "index")
            yield st, [L(64, i)], {"i": i, "j": add(i, ONE)}
        last = lambda env: [(sub(env["n"], env["j"]), "out_of_range")]
        op("erase(unsigned long)", "erase", e1, last, erased)

        def e2(E, st, v):
            i, j = num(E, st, "first index"), num(E, st, "last index")
            yield st, [L(64, i), L(64, j)], {"i": i, "j": j}
        op("erase(unsigned long, unsigned long)", "erase of a range", e2,
           lambda env: [(sub(sub(env["j"], env["i"]), ONE), "out_of_range"), (sub(env["n"], env["j"]), "out_of_range")], erased)

        def e3(E, st, v):
            if v[2] is None:
                return
            i = num(E, st, "index")
            if not E.assume(st, sub(sub(v[1], i), ONE)):
                return
            yield st, [self.iterator(st, P(v[2], scale(i, z)))], {"i": i, "j": add(i, ONE)}

        def e4(E, st, v):
            if v[2] is None:
                return
            i, j = num(E, st, "first index"), num(E, st, "last index")
            if not (E.assume(st, sub(j, i)) and E.assume(st, sub(v[1], j))):
                return
            yield st, [self.iterator(st, P(v[2], scale(i, z))), self.iterator(st, P(v[2], scale(j, z)))], {"i": i, "j": j}
        op("erase(%s)" % it, "erase at an iterator", e3, last, erased, at_index, sret="iterator")
        op("erase(%s, %s)" % (it, it), "erase between iterators", e4,
           lambda env: [(sub(sub(env["j"], env["i"]), ONE), "out_of_range")], erased, at_index, sret="iterator")

        # ---- the last element, exchange
        def pop(E):
            for st, v in states(E, False):
                if E.assume(st, sub(v[1], ONE)):
                    env = {"v": v[0], "n": v[1], "slot": st.new(Obj("stack", const(z), "undef", tag="the result"))}
                    sr = any(p.get("sret") for p in self.fn("pop_back()").params)
                    env["sret"] = sr
                    yield st, ([P(env["slot"])] if sr else []) + [P(v[0])], env

        def popped(E, s, val_, env):
            x = s.heap[env["slot"]].cells[ZERO][1] if env["sret"] else val_
            n = sub(env["n"], ONE)
            for s2, diff in same(E, s, (chunk(x),), (T("old v", n, env["n"]),)):
                if diff:
                    E.report("elements", s2, "pop_back gives another element (%s)" % diff, "pop_back")
        self.explore("pop_back", "pop_back()", pop,
                     lambda E, st, env: [(st, "ret", [(env["v"], V, (T("old v", ZERO, sub(env["n"], ONE)),))], lambda E, s, v_: popped(E, s, v_, env))], kinds)

        def sw(E):
            us = (False, True)
            for a in us:
                for b in us:
                    st = St()
                    v, w = self.vec(E, st, "v", a), self.vec(E, st, "w", b)
                    yield st, [P(v[0]), P(w[0])], {"v": v[0], "w": w[0], "ov": old(v), "ow": () if w[2] is None else (T("old w", ZERO, w[1]),)}
            st = St()
            v = self.vec(E, st, "v", True)
            yield st, [P(v[0]), P(v[0])], {"v": v[0], "w": v[0], "ov": old(v), "ow": old(v)}
        self.explore("swap", "swap(%s&)" % self.V, sw,
                     lambda E, st, env: [(st, "ret", [(env["v"], "v", env["ow"]), (env["w"], "w", env["ov"])], None)], kinds)

    # ------------------------------------------------------------ small checks
    def sret(self, sig, states, old, pre, more, plain):
        def start(E):
            for st, v in states(E):
                env = {"v": v[0], "old": old(v), "n": v[1]}
                pre(E, st, env)
                yield st, [P(env["slot"]), P(v[0])], env
        self.explore(sig, sig, start, plain(None, more), None)

    def number(self, E, st, v, n, title):
        for s, e in E.norm_u(st, 64, v[2]):
            for s2, bad in self.eq(E, s, e, n):
                if bad:
                    E.report("elements", s2, "%s() is not the number of elements" % title, title)

    def boolean(self, E, st, v, n):
        for s, t in E.truth(st, v):
            x = E.split(s, sub(n, ONE))[0 if t else 1]
            if x is not None:
                E.report("elements", x, "empty() is %s" % ("true for a vector with elements" if t else "false for a vector without elements"), "empty")

    def capacity(self, E, st, oid, k):
        c = st.heap[oid].cells[const(self.off["cap"])][1]
        for s, e in E.norm_u(st, 64, c[2]):
            ok, bad = E.split(s, sub(e, k))
            if bad is not None:
                E.report("elements", bad, "reserve leaves less capacity than asked for", "reserve")

    def itself(self, E, st, v, env):
        if v != P(env["v"]):
            E.report("elements", st, "an assignment does not return the vector", "operator=")

    def default(self):
        return ("new",) if "::" in self.t else ("zero",)

    def stdvec(self):
        for f in self.prog.functions.values():
            m = re.match(re.escape(self.V) + r"::Vector\((std::vector<.*>) const&\)$", f.dem)
            if m:
                return m.group(1)
        return "std::vector<%s>" % self.t


def pack(env):
    out = []
    for k in sorted(env):
        v = env[k]
        if k == "args":
            continue
        if isinstance(v, int) and not isinstance(v, bool):
            v = ("@obj", v)
        elif k in ("old", "c", "ov", "ow"):
            v = ("@seq", tuple(v))
        elif k in ("n", "k", "i", "j"):
            v = ("@LE", v)
        elif k == "w" and isinstance(v, tuple):
            v = ("@vec", ("@obj", v[0]), ("@LE", v[1]), ("@obj", v[2]) if v[2] is not None else None)
        elif k == "keep":
            v = ("@keep",) + tuple(("@obj", x) for x in v if x is not None)
        elif k == "x":
            pass
        out.append(("env " + k, v))
    return tuple(out)


def unpack(g):
    env = {}
    for k, v in g:
        if isinstance(v, tuple) and v:
            if v[0] in ("@obj", "@seq", "@LE"):
                v = v[1]
            elif v[0] == "@vec":
                v = (v[1][1], v[2][1], v[3] and v[3][1])
            elif v[0] == "@keep":
                v = tuple(x[1] for x in v[1:])
        env[k[4:]] = v
    return env


NAMES = {"ret": "no error", "out_of_range": "the out-of-range error", "length_error": "the length error", "bad_alloc": "the error of no memory"}


TYPES = (("sa::Item", 24), ("char", 1))
# the constants that take the place of the numbers when a finding is confirmed
PICKS = (("capacity", (0, 1, 3)), ("size", (0, 1, 2, 3)), ("length of", (3,)), ("its index", (0, 1, 2)), ("first index", (0, 1, 2)),
         ("last index", (0, 1, 2, 3)), ("index", (0, 1, 2, 3)), ("count", (0, 1, 2, 5)), ("first", (0, 1)), ("last", (0, 1, 3)))
_prog = None


def domain(name):
    for k, d in PICKS:
        if name.startswith(k):
            return d
    raise KeyError(name)


def job(a):
    """one operation; returns what was found"""
    import properties
    t, z, kinds, i, small = a
    r = properties.Result()
    v = Vectors(_prog, t, z, kinds)
    v.only = i
    t0 = time.time()
    if not small:
        try:
            v.run(kinds)
        except Undecided as u:
            r.undecided.append(Finding("elements", str(u), v.V, [], [], False, str(u)))
        for title, E in v.engines:
            r.add_engine(E, kinds)
    else:
        v.small = True
        names = {}
        todo = [{}]
        while todo and not r.findings and time.time() - t0 < 150:
            v.pick = todo.pop()
            v.asked = {}
            v.engines = []
            v.ops = 0
            try:
                v.run(kinds)
            except NeedPick as n:
                todo += [dict(v.pick, **{n.name: c}) for c in reversed(domain(n.name))]
                continue
            except (Undecided, Skip):
                pass
            for title, E in v.engines:
                r.findings += [f for f in E.findings.values() if f.kind in kinds and f.exact]
    if os.environ.get("SA_TIME"):
        print("%6.1f %s %s %d %d" % (time.time() - t0, "constant sizes" if small else "", v.title, len(r.findings), len(r.undecided)), flush=True)
    return a, r, v.title


def decide(pid, kinds, tier):
    import properties, jobs
    global _prog
    _prog = ir.load(["containers"])
    r = properties.Result("every operation of Vector, from every state, against the same operation on a sequence")
    r.rules = ["each operation throws exactly under its documented condition and otherwise leaves the elements of the sequence model",
               "size <= capacity <= storage; every access lies in the storage; storage is released once and never lost"]
    todo = []
    for t, z in TYPES:
        v = Vectors(_prog, t, z, kinds)
        v.only = -1
        v.run(kinds)
        todo += [(t, z, kinds, i + 1, False) for i in range(v.ops)]
        r.extra["operations (%s)" % t] = v.ops
    again = []
    for a, got in jobs.each(job, todo):
        if got is None:
            r.undecided.append(jobs.undecided("operation %d of %s" % (a[3], a[0])))
            continue
        a, q, title = got
        for f in q.findings:
            f.msg = f.msg if title in f.msg or f.kind != "elements" else "%s: %s" % (title, f.msg)
        r.merge(q)
        if q.undecided and not q.findings:
            again.append(a[:4] + (True,))
    if again and not os.environ.get("SA_NOSMALL"):
        # look for the same with constant sizes, where every loop is followed to its end
        again.sort(key=lambda a: (a[3], a[0]))
        for a, got in jobs.each(job, again):
            if got is not None:
                r.findings += got[1].findings
    return r


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    t0 = time.time()
    r = decide("C11", ("elements", "memory", "uninit"), "quick")
    print("time", time.time() - t0, r.stats, r.obligations, r.discharged, r.extra)
    for f in r.findings + r.undecided:
        print(("!! " if f.exact else "?? ") + f.text())
