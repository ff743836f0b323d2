"""C18: the characteristic of a string and of its substrings.

The function is followed by abstract interpretation over a text of unbounded length whose bytes are read one
after the other.  Words built by bitwise operations are tracked bit by bit, each bit as a function of the bits
at the last loop head, so that one pass over the loop gives the transformer of every byte.  The transformers
form a finite automaton over all byte values; for every bit (and for the bits that hold a number together) the
pairs of values that a substring and its superstring can have are computed exactly from the automaton.  The
inclusion test is then followed for all such pairs."""
import itertools, time
import ir, models, loops
from lin import const, sym, add, sub, scale, ZERO
from engine import *
from models import ret

MAXNODES = 400


def fbit(atoms, fn):
    """bit as a function of atoms: atoms tuple, fn(assignment dict) -> 0/1"""
    atoms = tuple(sorted(set(atoms)))
    if len(atoms) > 8:
        raise Undecided("a bit that depends on too many others")
    tt = tuple(fn(dict(zip(atoms, a))) & 1 for a in itertools.product((0, 1), repeat=len(atoms)))
    if all(x == tt[0] for x in tt):
        return tt[0]
    return ("bit", atoms, tt)


def eval_bit(b, env):
    if isinstance(b, int):
        return b
    i = 0
    for a in b[1]:
        i = 2 * i + env[a]
    return b[2][i]


def atoms_of(b):
    return () if isinstance(b, int) else b[1]


class Bits(Engine):
    """adds words tracked bit by bit: ("bv", width, (lowest bit, ..., highest bit))"""

    def __init__(self, prog, possible=None, **kw):
        Engine.__init__(self, prog, **kw)
        self.possible_bits = possible or (lambda env: True)
        self.guarded = False

    def mkbit(self, atoms, fn):
        b = fbit(atoms, fn)
        if not isinstance(b, int):
            vals = {eval_bit(b, dict(zip(b[1], a))) for a in itertools.product((0, 1), repeat=len(b[1]))
                    if self.possible_bits(dict(zip(b[1], a)))}
            if len(vals) == 1:
                return vals.pop()
        return b

    def const_of(self, v):
        if v[0] == "bv" and all(isinstance(b, int) for b in v[2]):
            return C(v[1], sum(b << i for i, b in enumerate(v[2])))
        return v

    def bits_of(self, v, w):
        if v[0] == "bv":
            return v[2]
        if isconst(v):
            return tuple(cval(v) >> i & 1 for i in range(w))
        return None

    def bin(self, st, op, w, a, b, nuw=False, nsw=False):
        bv = a[0] == "bv" or b[0] == "bv"
        if not bv and not (op == "or" and w >= 8):
            return Engine.bin(self, st, op, w, a, b, nuw, nsw)
        for k, x in enumerate((a, b)):
            if x[0] == "t":
                out = []
                for v, s in self.split_term(st, x[2]):
                    y = C(w, v)
                    out += self.bin(s, op, w, y if k == 0 else a, y if k == 1 else b, nuw, nsw)
                return out
        if op not in ("or", "and", "xor"):
            a, b = self.const_of(a), self.const_of(b)
            if a[0] != "bv" and b[0] != "bv":
                return Engine.bin(self, st, op, w, a, b, nuw, nsw)
        x, y = self.bits_of(a, w), self.bits_of(b, w)
        if x is None or y is None:
            if not bv:
                return Engine.bin(self, st, op, w, a, b, nuw, nsw)
            raise Undecided("bits combined with a number that is not known")
        if op in ("or", "and", "xor"):
            f = {"or": lambda p, q: p | q, "and": lambda p, q: p & q, "xor": lambda p, q: p ^ q}[op]
            return [(st, ("bv", w, tuple(self.mkbit(atoms_of(p) + atoms_of(q), lambda e: f(eval_bit(p, e), eval_bit(q, e))) for p, q in zip(x, y))))]
        k = cval(b) if isconst(b) else None
        if op == "mul" and k and not k & (k - 1):
            op, k = "shl", k.bit_length() - 1
        if op == "udiv" and k and not k & (k - 1):
            op, k = "lshr", k.bit_length() - 1
        if op == "urem" and k and not k & (k - 1):
            return [(st, ("bv", w, tuple(p if i < k.bit_length() - 1 else 0 for i, p in enumerate(x))))]
        if op == "shl" and k is not None and k < w:
            return [(st, ("bv", w, (0,) * k + x[:w - k]))]
        if op == "lshr" and k is not None and k < w:
            return [(st, ("bv", w, x[k:] + (0,) * k))]
        if op == "ashr" and k is not None and k < w:
            return [(st, ("bv", w, x[k:] + (x[-1],) * k))]
        if op in ("add", "sub"):
            out, c = [], 0 if op == "add" else 1
            for p, q in zip(x, y):
                at = atoms_of(p) + atoms_of(q) + atoms_of(c)
                n = 0 if op == "add" else 1
                tot = lambda e: eval_bit(p, e) + (eval_bit(q, e) ^ n) + eval_bit(c, e)
                out.append(self.mkbit(at, lambda e: tot(e)))
                c = self.mkbit(at, lambda e: tot(e) >> 1)
            return [(st, ("bv", w, tuple(out)))]
        raise Undecided("arithmetic on bits")

    def cast(self, st, ins, fn):
        v = self.val(st, ins["a"][0])
        if v[0] == "bv":
            w = width(ins["t"])
            b = v[2]
            b = b[:w] if ins["o"] == "trunc" else b + ((b[-1] if ins["o"] == "sext" else 0),) * (w - len(b))
            return self.setreg(st, ins, [(st, self.const_of(("bv", w, b)) if w == 1 else ("bv", w, b))])
        return Engine.cast(self, st, ins, fn)

    def either(self, st):
        if st.ghost.get("guarded"):
            st.lossy("several decisions on bits")
        st.ghost["guarded"] = 1
        self.guarded = True
        return [(st.copy(), BTRUE), (st, BFALSE)]

    def cmp(self, st, p, w, a, b):
        if a[0] != "bv" and b[0] != "bv":
            return Engine.cmp(self, st, p, w, a, b)
        w = a[1] if a[0] == "bv" else b[1]
        a, b = self.const_of(a), self.const_of(b)
        if a[0] != "bv" and b[0] != "bv":
            return Engine.cmp(self, st, p, w, a, b)
        for k, x in enumerate((a, b)):
            if x[0] == "t":
                out = []
                for v, s in self.split_term(st, x[2]):
                    y = C(w, v)
                    out += self.cmp(s, p, w, y if k == 0 else a, y if k == 1 else b)
                return out
        x, y = self.bits_of(a, w), self.bits_of(b, w)
        if x is None or y is None:
            raise Undecided("bits compared with a number that is not known")
        if p in ("eq", "ne"):
            d = [self.mkbit(atoms_of(i) + atoms_of(j), lambda e: eval_bit(i, e) ^ eval_bit(j, e)) for i, j in zip(x, y)]
            if 1 in d:
                return [(st, BTRUE if p == "ne" else BFALSE)]
            if all(i == 0 for i in d):
                return [(st, BTRUE if p == "eq" else BFALSE)]
        return self.either(st)

    def truth(self, st, v):
        if v[0] == "bv":
            v = self.const_of(v)
            if v[0] == "bv":
                return [(s, t == BTRUE) for s, t in self.either(st)]
        return Engine.truth(self, st, v)


class Reader:
    """the function that computes the characteristic, as an automaton over bytes"""

    def __init__(self, prog):
        self.prog = prog
        self.fn = prog.one(r"^sa_characteristic\(")
        self.nodes = {}
        self.edges = []      # (source, letters, target, {atom: bit})
        self.outs = []       # (source, letters, bits)
        self.index = None
        self.engines = []
        self.words = set()
        self.pass_()
        self.index = {k for k, ds in self.found.items() if ds == {0}} - self.words
        self.nodes.clear(); self.edges.clear(); self.outs.clear()
        self.pass_()

    def pass_(self):
        self.found = {}
        self.partial = None
        self.E = E = Bits(self.prog, max_steps=150000, deadline=time.time() + 100)
        self.heads = 0
        self.engines.append(E)
        models.install(E)
        E.monitors["text"] = self
        E.hooks["head"] = self.head
        E.hooks["outcome"] = self.outcome
        st = St()
        n = sym("len")
        E.assume(st, n); E.assume(st, sub(const((1 << 32) - 2), n))
        st.tapes["text"] = Tape(n)
        s = st.new(Obj("seq", None, tag="the text", attr={"nul": True}, seq=(("T", "text", ZERO, n),)))
        h = st.new(Obj("ext", const(32), "undef", tag="the text", cells={ZERO: (32, ("S", s))}))
        st.ghost["node"] = -1
        st.ghost["letters"] = ()
        E.explore(st, self.fn, [P(h)])

    def consume(self, E, st, tid, s):
        st.ghost["letters"] = st.ghost["letters"] + (("@fin", s),)
        return [st]

    def places(self, st):
        """(name, value) of everything that is carried along: live registers and local variables"""
        last = len(st.frames) - 1
        for n, f in enumerate(st.frames):
            ins = f.fn.blocks[f.blk][min(f.idx, len(f.fn.blocks[f.blk]) - 1)]
            for r in loops.live_regs(f.fn, f.blk, f.idx, n == last, ins.get("d")):
                if r in f.regs:
                    yield (n, f.fn.name, "r", r), f.regs[r]
            for k, a in enumerate(f.allocas):
                o = st.heap.get(a)
                if o is None:
                    continue
                for off in list(o.cells):
                    if not off[1]:
                        yield (n, f.fn.name, k, off[0]), o.cells[off][1]

    def put(self, st, key, v):
        f = st.frames[key[0]]
        if key[2] == "r":
            f.regs[key[3]] = v
        else:
            o = st.mut(f.allocas[key[2]])
            o.cells[const(key[3])] = (o.cells[const(key[3])][0], v)

    def head(self, E, st):
        loops.prune_cells(E, st)
        todo = [st]
        # no value may go on depending on a byte that was read
        while todo:
            s = todo.pop()
            for key, v in self.places(s):
                if v[0] == "t" and esyms(v[2]):
                    for c, x in E.split_term(s, v[2]):
                        self.put(x, key, C(v[1], c))
                        todo.append(x)
                    break
            else:
                self.at(E, s)
        return None

    def at(self, E, st):
        t = st.tapes["text"]
        self.heads += 1
        if self.heads > 20000:
            self.partial = "loops that do not follow the text"
        if self.partial:
            return
        if self.index is None:
            for key, v in self.places(st):
                if v[0] == "bv":
                    self.words.add(key)
                if v[0] == "l":
                    d = sub(v[2], t.pos)
                    self.found.setdefault(key, set()).add(d[0] if not d[1] else "?")
            if t.pos[1] or t.pos[0] >= 2:
                return
            E.work.append(st)
            return
        letters = tuple(frozenset(st.fin[x[1]]) for x in st.ghost["letters"])
        # some position instead of this one
        moved = t.pos != ZERO
        p = sym("position") if moved else ZERO
        shift = sub(p, t.pos)
        maps = {}
        for key, v in list(self.places(st)):
            if key in self.words and isconst(v):
                v = ("bv", v[1], E.bits_of(v, v[1]))
            if v[0] == "p" and isinstance(v[1], int) and v[1] in st.heap and st.heap[v[1]].seq and st.heap[v[1]].seq[0][0] == "T":
                d = sub(v[2], t.pos)
                if not moved or d[1] or not v[2][1] and v[2][0] == 0:
                    continue
                v = P(v[1], add(v[2], shift))
            elif v[0] == "l" and key in self.index:
                if v[2] != t.pos:
                    raise Undecided("a counter that does not follow the text")
                v = L(v[1], p)
            elif v[0] == "bv":
                b = []
                for i, x in enumerate(v[2]):
                    n = "%s.%s.%s.%d" % (key[0], key[2], key[3], i)
                    maps[n] = x
                    b.append(fbit((n,), lambda e, n=n: e[n]))
                v = ("bv", v[1], tuple(b))
            else:
                continue
            self.put(st, key, v)
        t = st.mtape("text")
        t.pos = p
        ahead = 0
        while ahead in t.cells and END not in st.fin[t.cells[ahead]]:
            ahead += 1
        t.cells = {k: c for k, c in t.cells.items() if k >= 0}
        if moved:
            keep = set()
            st.facts = frozenset(e for e in st.facts if not any(s in ("position",) for s, _ in e[1]) and not (e[1] and any(s == "len" for s, _ in e[1])))
            E.assume(st, sub(p, const(1)))
            E.assume(st, sub(sub(t.len, p), const(ahead)))
            E.assume(st, sub(const((1 << 32) - 2), t.len))
        old = st.ghost["node"]
        st.ghost["node"] = -2
        st.ghost["letters"] = ()
        st.visits = {}
        st.lineage = ()
        w = loops.canon(E, st)
        key = (w.skel, tuple(e if not e[1] else "*" for e in w.slots), tuple(w.dst.fin[s] for s in w.fins))
        new = key not in self.nodes
        n = self.nodes.setdefault(key, len(self.nodes))
        self.edges.append((old, letters, n, maps))
        if new:
            if len(self.nodes) > MAXNODES:
                # what was followed so far is still searched for a violation
                self.partial = "a number that grows with the text"
                return
            s = w.dst
            s.ghost["node"] = n
            E.work.append(s)

    def outcome(self, E, st, kind, val):
        E.oblige("include", st, "characteristic of a string")
        if self.index is None:
            return
        if kind != "ret":
            E.report("include", st, "no characteristic for some string (%s)" % kind)
            return
        todo = [st]
        while todo:
            s = todo.pop()
            t = s.tapes["text"]
            if 0 in t.cells and END not in s.fin[t.cells[0]]:
                todo.extend(loops.consume(E, s, "text"))
                continue
            d = sub(t.len, t.pos)
            a, b = E.split(s, sub(d, const(1)))
            for x, rest in ((b, False), (a, True)):
                if x is None:
                    continue
                v = val
                if v[0] == "t":
                    for c, y in E.split_term(x, v[2]):
                        self.out(E, y, C(32, c), rest)
                else:
                    self.out(E, x, v, rest)

    def out(self, E, st, v, rest):
        b = E.bits_of(v, 32)
        if b is None:
            raise Undecided("a characteristic that is not tracked bit by bit")
        letters = tuple(frozenset(st.fin[x[1]]) for x in st.ghost["letters"])
        self.outs.append((st.ghost["node"], letters, b, rest))


class Automaton:
    def __init__(self, rd):
        self.n = itertools.count(10 ** 6)
        self.step = {}     # node -> [(letters, target, map)]
        self.eps = {}      # node -> [(target, map)]
        self.final = {}    # node -> [bits]
        self.proj = {}
        self.next = {}
        for a, ls, b, m in rd.edges:
            self.path(a, ls, b, m)
        for a, ls, bits, rest in rd.outs:
            e = next(self.n)
            m = {"out.%d" % i: x for i, x in enumerate(bits)}
            self.path(a, ls, e, m)
            self.final.setdefault(e, True)
            if rest:
                self.step.setdefault(e, []).append((ALLBYTES, e, None))

    def path(self, a, ls, b, m):
        # the map is applied on the last step; a path without letters is an epsilon step
        for k, l in enumerate(ls):
            last = k == len(ls) - 1
            t = b if last else next(self.n)
            self.step.setdefault(a, []).append((l, t, m if last else None))
            a = t
        if not ls:
            self.eps.setdefault(a, []).append((b, m))

    def cone(self, names):
        out, todo = set(), list(names)
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            for lists in (self.step, self.eps):
                for es in lists.values():
                    for e in es:
                        m = e[-1]
                        if m and x in m:
                            todo.extend(atoms_of(m[x]))
        if len(out) > 40:
            raise Undecided("bits that depend on each other")
        return frozenset(out)

    def move(self, cone, env, m):
        if m is None:
            return env
        e = dict(env)
        r = {}
        for x in cone:
            if x in m:
                try:
                    r[x] = eval_bit(m[x], e)
                except KeyError:
                    raise Undecided("bit without a value")
        return tuple(sorted(r.items()))

    def close(self, cone, c):
        """configurations reachable without reading"""
        out, todo = [], [c]
        seen = {c}
        while todo:
            n, env = x = todo.pop()
            out.append(x)
            for t, m in self.eps.get(n, ()):
                y = (t, self.move(cone, env, m))
                if y not in seen:
                    seen.add(y); todo.append(y)
        return out

    def outputs(self, names, cone, c):
        r = []
        for n, env in self.close(cone, c):
            if n in self.final:
                e = dict(env)
                r.append(tuple(e[x] for x in names))
        return r

    def projected(self, cone):
        """steps on the bits of the cone only, bytes with the same effect together"""
        if cone not in self.proj:
            out = {}
            for n, es in self.step.items():
                g = {}
                for ls, t, m in es:
                    k = (t, None if m is None else tuple(sorted(((x, b) for x, b in m.items() if x in cone), key=repr)))
                    g[k] = g.get(k, frozenset()) | ls
                out[n] = [(ls, t, None if m is None else dict(m)) for (t, m), ls in g.items()]
            self.proj[cone] = out
        return self.proj[cone]

    def steps(self, cone, c):
        if (cone, c) not in self.next:
            self.next[cone, c] = [(ls, (t, self.move(cone, env, m))) for n, env in self.close(cone, c) for ls, t, m in self.projected(cone).get(n, ())]
        return self.next[cone, c]

    def pairs(self, bits):
        """{(value of the substring, value of the string): (before, substring, after)}"""
        names = ["out.%d" % b for b in bits]
        cone = self.cone(names)
        start = (-1, ())
        reach = {start: b""}
        todo = [start]
        for c in todo:
            for ls, d in self.steps(cone, c):
                if d not in reach:
                    reach[d] = reach[c] + pick(ls)
                    todo.append(d)
        after = {}

        def tails(c):
            """{output: shortest text that leads to it}"""
            if c not in after:
                seen = {c: b""}
                q = [c]
                r = {}
                for x in q:
                    for o in self.outputs(names, cone, x):
                        r.setdefault(o, seen[x])
                    for ls, d in self.steps(cone, x):
                        if d not in seen:
                            seen[d] = seen[x] + pick(ls)
                            q.append(d)
                after[c] = r
            return after[c]
        out = {}
        both = {(start, c): (u, b"") for c, u in reach.items()}
        q = list(both)
        for x in q:
            u, v = both[x]
            ov = self.outputs(names, cone, x[0])
            for o in ov:
                for o2, w in tails(x[1]).items():
                    if (o, o2) not in out or len(u + v + w) < len(b"".join(out[(o, o2)])):
                        out[(o, o2)] = (u, v, w)
            for l1, d1 in self.steps(cone, x[0]):
                for l2, d2 in self.steps(cone, x[1]):
                    both_l = l1 & l2
                    if both_l and (d1, d2) not in both:
                        both[(d1, d2)] = (u, v + pick(both_l))
                        q.append((d1, d2))
        self.configurations = len(both)
        return out

    def value(self, text):
        """characteristics of one text"""
        names = ["out.%d" % b for b in range(32)]
        cone = self.all_atoms()
        cur = {(-1, ())}
        for ch in text:
            cur = {d for c in cur for ls, d in self.steps(cone, c) if ch in ls}
        return {sum(b << i for i, b in enumerate(o)) for c in cur for o in self.outputs(names, cone, c)}

    def all_atoms(self):
        s = set()
        for lists in (self.step, self.eps):
            for es in lists.values():
                for e in es:
                    if e[-1]:
                        s |= set(e[-1])
        return frozenset(s)


@lru_cache(maxsize=None)
def pick(ls):
    for c in b"az09AZ_. ":
        if c in ls:
            return bytes([c])
    return bytes([min(ls)])


def include(prog, rule, text, possible=None):
    """[(state, result)] of the inclusion test"""
    E = Bits(prog, possible, max_steps=20000)
    models.install(E)
    outs = []
    E.hooks["outcome"] = lambda E, st, kind, val: outs.append((st, kind, val))
    E.explore(St(), prog.one(r"^sa_may_include\("), [rule, text])
    res = []
    for st, kind, val in outs:
        if kind != "ret":
            res.append((st, None))
        else:
            for s, t in E.truth(st, val if val[1] == 1 else E.trunc(st, E.const_of(val), 1)):
                res.append((s, t))
    return E, res


def decide(pid, kinds, tier):
    import properties
    prog = ir.load([unit()])
    r = properties.Result("transformer of every byte on every bit of the characteristic, the automaton they form, and the inclusion test over every pair it allows")
    r.rules = ["for all texts u v w, the inclusion test holds of the characteristics of v and of u v w",
               "the pairs of values of a substring and its superstring are computed per bit, and together for bits that hold a number"]
    rd = Reader(prog)
    for E in rd.engines[1:]:
        r.add_engine(E, kinds)
    r.findings += [f for f in rd.engines[0].findings.values() if f.kind in kinds]
    if not rd.outs and not r.findings:
        r.undecided += list(rd.engines[0].undecided.values())
        if not r.undecided:
            raise ir.AnalysisBroken("no characteristic was followed to its end")
    r.extra["automaton"] = "%d places, %d transitions, %d ends" % (len(rd.nodes), len(rd.edges), len(rd.outs))
    if r.findings or r.undecided:
        return r
    where = prog.one(r"StringHasher<\(?\d*u?\)?11u?>::may_include|StringHasher<.*>::may_include\(").where(None)
    A = Automaton(rd)
    try:
        check(prog, rd, A, r, where, kinds)
        if rd.partial and not r.findings:
            raise Undecided(rd.partial)
    except Undecided as u:
        r.undecided.append(Finding("include", str(u), where, [], [], False, str(u)))
    return r


def check(prog, rd, A, r, where, kinds):
    # bits that are the same function of one bit at every end stand alone
    alone, field = [], []
    for i in range(32):
        fs = {o[2][i] for o in rd.outs if not (isinstance(o[2][i], int) and o[0] == -1)}
        if len(fs) <= 1:
            alone.append(i)
        else:
            field.append(i)
    rel = {}
    wit = []
    for i in alone:
        p = A.pairs([i])
        rel[i] = {(a[0], b[0]) for a, b in p}
        wit += list(p.values())
    fp = A.pairs(field) if field else {((), ()): (b"", b"", b"")}
    wit += list(fp.values())
    r.extra["bits"] = "%d tracked alone, %d together (%d pairs of values)" % (len(alone), len(field), len(fp))
    r.extra["pairs of places compared"] = A.configurations

    def possible(env):
        for i in rel:
            a, b = env.get("r%d" % i), env.get("s%d" % i)
            if a is not None and b is not None:
                if (a, b) not in rel[i]:
                    return False
            elif a is not None and a not in {x for x, _ in rel[i]} or b is not None and b not in {x for _, x in rel[i]}:
                return False
        return True
    bad = None
    for (fv, fs), w in sorted(fp.items()):
        rb, sb = [None] * 32, [None] * 32
        for i in alone:
            for b, n, k in ((rb, "r%d" % i, 0), (sb, "s%d" % i, 1)):
                vs = {x[k] for x in rel[i]}
                b[i] = fbit((n,), lambda e: e[n]) if len(vs) > 1 else vs.pop()
        for k, i in enumerate(field):
            rb[i], sb[i] = fv[k], fs[k]
        E, res = include(prog, ("bv", 32, tuple(rb)), ("bv", 32, tuple(sb)), possible)
        r.obligations += 1
        r.functions |= {getattr(f, "dem", f) for f in E.functions_seen}
        r.undecided += list(E.undecided.values())
        r.findings += [f for f in E.findings.values() if f.kind in kinds]
        if any(t is not True for s, t in res) or not res:
            bad = w
            wit.append(w)
        else:
            r.discharged += 1
    if bad is None:
        return
    # look for texts that show it
    extra = [(b"", v, u + w) for u, v, w in wit]
    letters = b"".join(sorted({v for _, v, _ in wit if len(v) == 1}))
    extra += [(u, v + letters, w) for u, v, w in wit]
    seen = set()
    for u, v, w in wit + extra:
        if (u, v, w) in seen:
            continue
        seen.add((u, v, w))
        for x in A.value(v):
            for y in A.value(u + v + w):
                E, res = include(prog, C(32, x), C(32, y))
                if any(t is not True and s.exact for s, t in res):
                    r.findings.append(Finding("include", "the characteristic of %s is said not to be included in that of %s" % (txt(v), txt(u + v + w)),
                                              where, [], ["characteristics 0x%08x and 0x%08x" % (x, y)], not rd.E.guarded, "decisions on bits"))
                    return
    r.undecided.append(Finding("include", "some pair of characteristics is refused, but no pair of texts was found for it", where, [], [], False, "no witness"))


def txt(b):
    return repr(b.decode("latin1")) if len(b) <= 40 else "%r... (%d bytes)" % (b[:20].decode("latin1"), len(b))


def unit():
    return "characteristic"


if __name__ == "__main__":
    r = decide("C18", ("include", "memory", "uninit"), "quick")
    print(r.stats, r.obligations, r.discharged, r.extra)
    for f in r.findings + r.undecided: print(f.text())
