"""Abstract interpreter over the IR.

Domains: linear integer expressions under linear constraints (lin.py), finite
symbols with explicit value sets (bytes, tags) and pointwise terms over them,
object-relative pointers, sequence contents, and the finite ghost state of a
property monitor.  Loops are brought to a fixpoint at loop heads by matching
states up to symbol renaming, affine acceleration and generalisation.  Nothing
is executed; no solver is called.

A report is a violation only when the state it occurs in was reached without
losing information (`exact`); otherwise it counts as an undecided obligation."""
import itertools, os, re, sys, time
import jobs
from functools import lru_cache
import lin
from lin import const, sym, add, sub, scale, is_const, entails, infeasible, ZERO
from ir import AnalysisBroken

NULLOID = 0
END = 256
ALLBYTES = frozenset(range(256))
ONE = const(1)
UNKLEN = sym("?len")

_counter = itertools.count(1)


def fresh(p):
    return "%s%d" % (p, next(_counter))


# ---------------------------------------------------------------- values
def L(w, e):
    return ("l", w, e)


def C(w, v):
    return ("l", w, const(v))


def P(oid, off=ZERO):
    return ("p", oid, off)


NULL = P(NULLOID)
BTRUE = C(1, 1)
BFALSE = C(1, 0)


def isconst(v):
    return v[0] == "l" and not v[2][1]


def cval(v):
    """unsigned constant value"""
    return v[2][0] % (1 << v[1])


def sval(v):
    x = cval(v)
    return x - (1 << v[1]) if x >> (v[1] - 1) else x


# ---------------------------------------------------------------- terms
MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}


def mask(w):
    return MASK.get(w) or (1 << w) - 1


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def binop(op, w, a, b):
    m = mask(w)
    if op == "add": return (a + b) & m
    if op == "sub": return (a - b) & m
    if op == "mul": return (a * b) & m
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return (a << b) & m if b < w else 0
    if op == "lshr": return a >> b if b < w else 0
    if op == "ashr": return (tosigned(a, w) >> min(b, w)) & m
    if op == "udiv": return a // b if b else 0
    if op == "urem": return a % b if b else 0
    if op == "sdiv":
        if not b: return 0
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == "srem":
        if not b: return 0
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & m
    raise KeyError(op)


def icmp(p, w, a, b):
    if p == "eq": return a == b
    if p == "ne": return a != b
    if p[0] == "s":
        a, b = tosigned(a, w), tosigned(b, w)
    p = p[1:]
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]


BINOPS = ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem")


def ev(x, env):
    """expressions: ('s',sym,w) ('k',v) ('bin',op,w,a,b) ('cmp',p,w,a,b) ('cast',op,w0,w1,a) ('ite',c,a,b) ('tab',sym,((v,r),..))"""
    k = x[0]
    if k == "s":
        return env[x[1]] & mask(x[2])
    if k == "k":
        return x[1]
    if k == "bin":
        return binop(x[1], x[2], ev(x[3], env), ev(x[4], env))
    if k == "cmp":
        return int(icmp(x[1], x[2], ev(x[3], env), ev(x[4], env)))
    if k == "cast":
        v = ev(x[4], env)
        if x[1] == "sext":
            return tosigned(v, x[2]) & mask(x[3])
        return v & mask(x[3])
    if k == "ite":
        return ev(x[2], env) if ev(x[1], env) else ev(x[3], env)
    if k == "fn":  # named pointwise function of a byte
        return FNS[x[1]](ev(x[2], env))
    raise KeyError(k)


FNS = {}


@lru_cache(maxsize=100000)
def esyms(x):
    k = x[0]
    if k == "s":
        return (x[1],)
    out = []
    for y in x[1:]:
        if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in ("s", "k", "bin", "cmp", "cast", "ite", "fn"):
            for s in esyms(y):
                if s not in out:
                    out.append(s)
    return tuple(out)


def erename(x, m):
    if x[0] == "s":
        return ("s", m.get(x[1], x[1]), x[2])
    if x[0] == "k":
        return x
    return tuple(erename(y, m) if isinstance(y, tuple) else y for y in x)


# ---------------------------------------------------------------- state
class Frame:
    __slots__ = ("fn", "blk", "idx", "regs", "allocas", "onret", "data")

    def __init__(self, fn):
        self.fn = fn; self.blk = 0; self.idx = 0; self.regs = {}; self.allocas = ()
        self.onret = None; self.data = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.idx = self.idx; f.regs = dict(self.regs)
        f.allocas = self.allocas; f.onret = self.onret; f.data = self.data
        return f


class Obj:
    __slots__ = ("kind", "size", "init", "cells", "life", "tag", "attr", "seq", "ro")

    def __init__(self, kind, size, init="undef", tag="", cells=None, attr=None, seq=None, life="live", ro=False):
        self.kind = kind; self.size = size; self.init = init; self.cells = cells or {}
        self.life = life; self.tag = tag; self.attr = attr or {}; self.seq = seq; self.ro = ro

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind; o.size = self.size; o.init = self.init; o.cells = dict(self.cells)
        o.life = self.life; o.tag = self.tag; o.attr = dict(self.attr); o.seq = self.seq; o.ro = self.ro
        return o


class Tape:
    """text of symbolic length whose bytes are finite symbols near the position"""
    __slots__ = ("len", "pos", "cells", "dom", "end", "mon", "floor")

    def __init__(self, ln, dom=ALLBYTES, end=True, mon=None):
        self.len = ln; self.pos = ZERO; self.cells = {}; self.dom = dom; self.end = end; self.mon = mon
        self.floor = 0   # lowest relative index that may still be (re)read precisely

    def copy(self):
        t = Tape.__new__(Tape)
        t.len = self.len; t.pos = self.pos; t.cells = dict(self.cells); t.dom = self.dom
        t.end = self.end; t.mon = self.mon; t.floor = self.floor
        return t


class St:
    __slots__ = ("frames", "heap", "facts", "fin", "ghost", "tapes", "exact", "why", "exc", "lineage", "trail", "visits")

    def __init__(self):
        self.frames = []; self.heap = {}; self.facts = frozenset(); self.fin = {}; self.ghost = {}
        self.tapes = {}; self.exact = True; self.why = None; self.exc = None; self.lineage = (); self.trail = None
        self.visits = {}

    def copy(self):
        s = St.__new__(St)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap); s.facts = self.facts; s.fin = dict(self.fin); s.ghost = dict(self.ghost)
        s.tapes = dict(self.tapes); s.exact = self.exact; s.why = self.why; s.exc = self.exc
        s.lineage = self.lineage; s.trail = self.trail; s.visits = dict(self.visits)
        return s

    def mut(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o

    def mtape(self, tid):
        t = self.tapes[tid].copy()
        self.tapes[tid] = t
        return t

    def new(self, obj):
        oid = next(_counter)
        self.heap[oid] = obj
        return oid

    def lossy(self, why):
        if self.exact:
            self.exact = False
            self.why = why

    def note(self, text):
        self.trail = (text, self.trail)

    @property
    def top(self):
        return self.frames[-1]


class Undecided(Exception):
    pass


class Finding:
    def __init__(self, kind, msg, where, stack, notes, exact, why):
        self.kind = kind; self.msg = msg; self.where = where; self.stack = stack; self.notes = notes
        self.exact = exact; self.why = why

    def ident(self):
        return "%s at %s: %s" % (self.kind, self.where, self.msg)

    def text(self):
        t = "%s: %s\n  at %s\n" % (self.kind, self.msg, self.where)
        for s in self.stack:
            t += "    in %s\n" % s
        if self.notes:
            t += "  path:\n" + "".join("    %s\n" % n for n in self.notes)
        if not self.exact:
            t += "  (not decided: %s)\n" % self.why
        return t


class Engine:
    def __init__(self, prog, max_steps=400000, delay=2, deadline=None):
        self.prog = prog
        self.joins_lossy = False  # findings after a generalised loop are not exact
        self.models = []          # [(compiled regex on demangled name, callable)]
        self._mcache = {}
        self.findings = {}
        self.undecided = {}
        self.stats = {"steps": 0, "states": 0, "calls": 0, "loop_heads": 0, "joins": 0, "subsumed": 0,
                      "loads": 0, "stores": 0, "branches": 0}
        self.functions_seen = set()
        self.checked = {}         # obligation key -> ok
        self.max_steps = max_steps
        self.delay = delay
        self.short_unroll = 6
        self.big_unroll = None    # loops whose counter is constant are followed this often (None: loops.BIG_UNROLL)
        self.coarse = None        # contents of objects of at least this size are not followed
        self.stop_at = None
        self.grace = 30000        # steps to go on for after the first violation
        self.deadline = deadline
        self.heads = {}
        self.dedupe = True
        self.keep_quotients = self.lossy_quotients = False
        self.positions_matter = False   # keep constant text positions and their relation to counters
        self.waiting = {}
        self.globals_oid = {}
        self.frozen = frozenset() # variables that nothing ever writes
        self.hooks = {}           # name -> callable
        self.monitors = {}
        self.typeids = {}
        self.outcomes = []
        self.unmodelled = {}
        self.intercept_re = []

    # ------------------------------------------------------------ reports
    def where(self, st):
        for f in reversed(st.frames):
            if f.fn.repo:
                ins = self.cur_ins(f)
                return f.fn.where(ins.get("l") if ins else None)
        return st.frames[-1].fn.dem if st.frames else self.at

    at = "?"       # the construct looked at, when nothing is running

    def cur_ins(self, f):
        b = f.fn.blocks[f.blk]
        i = min(f.idx, len(b) - 1)
        while i >= 0 and "l" not in b[i]:
            i -= 1
        return b[i] if i >= 0 else None

    def stack(self, st):
        out = []
        for f in reversed(st.frames):
            ins = self.cur_ins(f)
            out.append(f.fn.where(ins.get("l") if ins else None))
        return out

    def notes(self, st):
        out = []
        t = st.trail
        while t is not None and len(out) < 40:
            out.append(t[0]); t = t[1]
        return out[::-1]

    def oblige(self, kind, st, where=None):
        k = (kind, where or self.where(st))
        self.checked.setdefault(k, 0)
        self.checked[k] += 1
        return k

    def report(self, kind, st, msg, where=None):
        w = where or self.where(st)
        key = (kind, w, msg)
        if st.exact:
            if key not in self.findings:
                self.findings[key] = Finding(kind, msg, w, self.stack(st), self.notes(st), True, None)
                if os.environ.get("SA_DEBUG"):
                    sys.stderr.write(self.findings[key].text())
        else:
            if key not in self.undecided:
                self.undecided[key] = Finding(kind, msg, w, self.stack(st), self.notes(st), False, st.why)
                if os.environ.get("SA_DEBUG"):
                    sys.stderr.write(self.undecided[key].text())

    def give_up(self, st, msg):
        w = self.where(st) if st.frames else "?"
        key = ("engine", w, msg)
        if key not in self.undecided:
            self.undecided[key] = Finding("engine", msg, w, self.stack(st), self.notes(st), False, msg)
            if os.environ.get("SA_DEBUG"):
                sys.stderr.write(self.undecided[key].text())

    # ------------------------------------------------------------ models
    def model(self, rx, fn):
        self.models.append((re.compile(rx), fn))
        self._mcache.clear()

    def find_model(self, name, dem):
        k = name
        if k in self._mcache:
            return self._mcache[k]
        r = None
        for rx, fn in reversed(self.models):
            if rx.search(dem) or rx.pattern == name:
                r = fn
                break
        self._mcache[k] = r
        return r

    # ------------------------------------------------------------ facts
    def assume(self, st, e):
        """add e >= 0; False when it contradicts the facts"""
        if not e[1]:
            return e[0] >= 0
        e = lin.tighten(e)
        if e in st.facts:
            return True
        st.facts = st.facts | {e}
        if infeasible(st.facts):
            return False
        return self.sync(st, e)

    def assume_eq(self, st, e):
        return self.assume(st, e) and self.assume(st, scale(e, -1))

    def ent(self, st, e):
        return entails(st.facts, e)

    def possible(self, st, e):
        if not e[1]:
            return e[0] >= 0
        return not entails(st.facts, add(scale(e, -1), ONE, -1))

    def split(self, st, e):
        """(state with e>=0 or None, state with e<0 or None)"""
        if not e[1]:
            return (st, None) if e[0] >= 0 else (None, st)
        n = add(scale(e, -1), ONE, -1)
        if entails(st.facts, e):
            return st, None
        if entails(st.facts, n):
            return None, st
        o = st.copy()
        a = st if self.assume(st, e) else None
        b = o if self.assume(o, n) else None
        return a, b

    # ------------------------------------------------------------ finite symbols
    def newfin(self, st, dom, p="c"):
        s = fresh(p)
        st.fin[s] = frozenset(dom)
        return s

    def set_dom(self, st, s, dom):
        if not dom:
            return False
        old = st.fin[s]
        if dom == old:
            return True
        st.fin[s] = dom
        return self.sync_cell(st, s)

    def sync_cell(self, st, s):
        for tid, t in st.tapes.items():
            for k, c in t.cells.items():
                if c == s:
                    d = st.fin[s]
                    here = add(t.pos, const(k))
                    if END in d and len(d) == 1:
                        return self.assume_eq(st, sub(t.len, here))
                    if END not in d:
                        return self.assume(st, sub(t.len, add(here, ONE)))
        return True

    def sync(self, st, e):
        """propagate a new linear fact to the end-of-text alternatives of read cells"""
        es = set(s for s, _ in e[1])
        for tid, t in list(st.tapes.items()):
            if not any(s in es for s, _ in t.len[1]):
                continue
            for k, c in list(t.cells.items()):
                d = st.fin[c]
                if END in d and len(d) > 1:
                    here = add(t.pos, const(k))
                    if self.ent(st, sub(t.len, add(here, ONE))):
                        if not self.set_dom(st, c, d - {END}):
                            return False
                    elif self.ent(st, sub(here, t.len)):
                        if not self.set_dom(st, c, frozenset([END])):
                            return False
                elif END not in d and self.ent(st, sub(add(t.pos, const(k)), t.len)):
                    return False
        return True

    def term_values(self, st, x, limit=300000):
        ss = esyms(x)
        n = 1
        for s in ss:
            n *= len(st.fin[s])
        if n > limit:
            raise Undecided("term over too many values")
        out = set()
        for vs in itertools.product(*[sorted(st.fin[s]) for s in ss]):
            out.add(ev(x, dict(zip(ss, vs))))
        return out

    def split_term(self, st, x, classify=None):
        """[(class value, state)] with the domains narrowed so that classify(value) is constant"""
        classify = classify or (lambda v: v)
        ss = esyms(x)
        if not ss:
            return [(classify(ev(x, {})), st)]
        doms = [sorted(st.fin[s]) for s in ss]
        n = 1
        for d in doms:
            n *= len(d)
        if n > 300000:
            raise Undecided("term over too many values")
        if len(ss) == 1:
            groups = {}
            s = ss[0]
            for v in doms[0]:
                groups.setdefault(classify(ev(x, {s: v})), []).append(v)
        else:
            vals = {}
            for vs in itertools.product(*doms):
                vals[vs] = classify(ev(x, dict(zip(ss, vs))))
            if len(set(vals.values())) == 1:
                return [(next(iter(vals.values())), st)]
            # split on the first symbol into groups with equal behaviour
            s = ss[0]
            sig = {}
            for vs, r in vals.items():
                sig.setdefault(vs[0], []).append(r)
            groups2 = {}
            for v, rs in sig.items():
                groups2.setdefault(tuple(rs), []).append(v)
            out = []
            if len(groups2) == 1:
                # the first symbol does not matter: substitute any value
                v = doms[0][0]
                y = esubst(x, s, v)
                return self.split_term(st, y, classify)
            items = list(groups2.values())
            for i, g in enumerate(items):
                t = st.copy() if i < len(items) - 1 else st
                if self.set_dom(t, s, frozenset(g)):
                    out.extend(self.split_term(t, esubst(x, s, g[0]), classify))
            return out
        if len(groups) == 1:
            return [(next(iter(groups)), st)]
        out = []
        items = sorted(groups.items(), key=lambda t: repr(t[0]))
        for i, (r, g) in enumerate(items):
            t = st.copy() if i < len(items) - 1 else st
            if self.set_dom(t, s, frozenset(g)):
                out.append((r, t))
        return out

    # ------------------------------------------------------------ ints
    def mkterm(self, st, w, x):
        ss = esyms(x)
        if all(len(st.fin[s]) == 1 for s in ss):
            return C(w, ev(x, {s: next(iter(st.fin[s])) for s in ss}))
        return ("t", w, x)

    def simp(self, st, v):
        if v[0] == "t":
            return self.mkterm(st, v[1], v[2])
        return v

    def lin_of(self, st, v):
        """linear expression of an integer value (terms become opaque symbols with range facts)"""
        if v[0] == "l":
            return v[2]
        if v[0] == "t":
            v = self.mkterm(st, v[1], v[2])
            if v[0] == "l":
                return v[2]
            s = ("T", v[2])
            try:
                vals = self.term_values(st, v[2])
                lo, hi = min(vals), max(vals)
            except Undecided:
                lo, hi = 0, mask(v[1])
            self.assume(st, (-lo, ((s, 1),)))
            self.assume(st, (hi, ((s, -1),)))
            return sym(s)
        if v[0] == "p":
            if v[1] == NULLOID:
                return v[2]
            if isinstance(v[1], tuple) and v[1][0] == "K":
                return add(const(v[1][1]), v[2])
            return add(sym(("A", v[1])), v[2])
        raise Undecided("not an integer: %s" % (v[0],))

    def expr_of(self, v):
        """term expression of a value, or None"""
        if v[0] == "t":
            return v[2]
        if isconst(v):
            return ("k", cval(v))
        if v[0] == "l" and len(v[2][1]) == 1:
            (s, c), = v[2][1]
            if isinstance(s, tuple) and s[0] == "T" and c == 1:
                x = s[1]
                if v[2][0]:
                    x = ("bin", "add", v[1], x, ("k", v[2][0] % (1 << v[1])))
                return x
        return None

    def norm_u(self, st, w, e):
        """[(state, e')] with e' == e mod 2^w and 0 <= e' < 2^w known"""
        M = 1 << w
        if not e[1]:
            return [(st, const(e[0] % M))]
        if any(abs(c) >= M for _, c in e[1]):     # multiples of 2^w do not count
            r = const(e[0] % M)
            for k, c in e[1]:
                c %= M
                if c:
                    r = add(r, (0, ((k, c if c <= M // 2 else c - M),)))
            return self.norm_u(st, w, r)
        if self.ent(st, e) and self.ent(st, sub(const(M - 1), e)):
            return [(st, e)]
        out = []
        rest = st
        for k in (0, 1, -1):
            c = add(e, const(k * M))
            if rest is None:
                break
            ok, no = self.split(rest, c)
            if ok is not None:
                a, b = self.split(ok, sub(const(M - 1), c))
                if a is not None:
                    out.append((a, c))
                if b is not None and no is None:
                    no = b
                elif b is not None:
                    # beyond on both sides: opaque
                    out.append((b, self.opaque(b, "mod", w, e)))
            rest = no
        if rest is not None:
            out.append((rest, self.opaque(rest, "mod", w, e)))
        return out

    def opaque(self, st, op, w, *args):
        s = ("O", op, w) + args
        e = sym(s)
        self.assume(st, e)
        self.assume(st, sub(const((1 << w) - 1), e))
        return e

    def norm_s(self, st, w, e):
        M = 1 << w
        H = M >> 1
        if not e[1]:
            v = e[0] % M
            return [(st, const(v - M if v >= H else v))]
        if self.ent(st, add(e, const(H))) and self.ent(st, sub(const(H - 1), e)):
            return [(st, e)]
        r = []
        for s2, e2 in self.norm_u(st, w, add(e, const(H))):
            r.append((s2, sub(e2, const(H))))
        return r

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        k = o[0]
        if k == "r":
            return st.frames[-1].regs[o[1]]
        if k == "c":
            return C(o[1], int(o[2]))
        if k == "null":
            return NULL
        if k == "g":
            return P(self.global_obj(st, o[1]), const(o[2]))
        if k == "f":
            return ("f", o[1])
        if k == "undef":
            return ("u", width(o[1]))
        if k == "inttoptr":
            v = o[1]
            if v[0] == "c":
                return P(("K", int(v[2])))
        if k == "zero":
            return ("zero",)
        if k == "fp":
            return ("fp", o[2])
        return ("x", k)

    def global_obj(self, st, name):
        oid = ("G", name)
        if oid in st.heap:
            return oid
        g = self.prog.globals.get(name)
        if g is None:
            st.heap[oid] = Obj("global", None, "unk", tag=name)
            return oid
        o = Obj("global", const(g["size"]) if not g["decl"] else None, "unk" if g["decl"] else "zero", tag=g["dem"])
        if not g["const"] and not g["decl"] and name not in self.frozen:
            o.init = "unk"      # mutable global: any earlier call may have changed it
        o.ro = g["const"]
        st.heap[oid] = o
        if g["const"] or not g["decl"]:
            for c in g.get("cells", ()):
                if c[1] == "bytes":
                    o.attr.setdefault("bytes", []).append((c[0], bytes.fromhex(c[2])))
                elif g["const"] or name in self.frozen:
                    o.cells[const(c[0])] = (c[1], self.cval_static(st, c[2]))
        return oid

    def cval_static(self, st, o):
        if o[0] == "g":
            return P(("G", o[1]), const(o[2]))   # lazily created on use
        return self.val(st, o)

    # ------------------------------------------------------------ memory
    def obj(self, st, oid):
        if isinstance(oid, tuple) and oid[0] == "G" and oid not in st.heap:
            self.global_obj(st, oid[1])
        return st.heap.get(oid)

    def deref(self, st, v, size, what):
        """object of a pointer about to be accessed, or None after reporting"""
        if v[0] == "u":
            self.report("uninit", st, "%s through an uninitialised pointer" % what)
            return None
        if v[0] != "p":
            self.give_up(st, "%s through an unknown pointer" % what)
            return None
        oid = v[1]
        if oid == NULLOID:
            self.report("memory", st, "%s through a null pointer" % what)
            return None
        if isinstance(oid, tuple) and oid[0] == "K":
            self.report("memory", st, "%s through the constant address %s" % (what, oid[1]))
            return None
        o = self.obj(st, oid)
        if o is None:
            self.report("memory", st, "%s of an object that no longer exists" % what)
            return None
        if o.life != "live":
            self.report("memory", st, "%s of %s after it was released" % (what, o.tag or o.kind))
            return None
        return o

    def bounds(self, st, o, off, size, what):
        """state in which the access is in bounds (reports when it may not be)"""
        sz = self.obj_size(st, o)
        self.oblige("memory", st)
        if sz is None:
            return st
        lo = off
        hi = sub(sz, add(off, const(size) if isinstance(size, int) else size))
        if self.ent(st, lo) and self.ent(st, hi):
            return st
        self.report("memory", st, "%s outside %s" % (what, o.tag or o.kind))
        if self.assume(st, lo) and self.assume(st, hi):
            return st
        return None

    def obj_size(self, st, o):
        if o.kind == "seq":
            n = self.seq_len(st, o.seq)
            return add(n, ONE) if o.attr.get("nul") else n
        return o.size

    def seq_len(self, st, seq):
        n = ZERO
        for c in seq:
            if c[0] == "b":
                n = add(n, ONE)
            elif c[0] == "T":
                n = add(n, sub(c[3], c[2]))
            elif c[2] is UNKLEN or c[2] == UNKLEN:
                st.lossy("length of summarised content")
                k = sym(fresh("n"))
                self.assume(st, k)
                n = add(n, k)
            else:
                n = add(n, c[2])
        return n

    def load(self, st, v, size, ty):
        """[(state, value)]"""
        self.stats["loads"] += 1
        o = self.deref(st, v, size, "read")
        if o is None:
            return []
        off = v[2]
        if o.kind == "seq":
            return self.seq_load(st, v[1], off, size, ty)
        h = o.attr.get("onload")
        if h:
            r = self.hooks[h](self, st, v[1], off, size, ty)
            if r is not None:
                return r
            o = st.heap[v[1]]
        st = self.bounds(st, o, off, size, "read")
        if st is None:
            return []
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(st, c[1], ty)
        if c is not None and c[0] > size and c[1][0] in ("l", "t"):
            return self.retype(st, self.trunc(st, c[1], size * 8), ty)
        if not off[1]:
            b = self.read_bytes(st, o, off[0], size)
            if b is not None:
                if ty == "ptr":
                    return [(st, NULL if not any(b) else ("x", "ptr"))]
                return [(st, C(width(ty), int.from_bytes(b, "little")))]
            # inside a larger integer cell
            for co, (cs, cv) in o.cells.items():
                if not co[1] and co[0] <= off[0] and off[0] + size <= co[0] + cs and cv[0] in ("l", "t"):
                    x = self.bin(st, "lshr", cs * 8, cv, C(cs * 8, 8 * (off[0] - co[0])))
                    return [(s2, self.trunc(s2, y, size * 8)) for s2, y in x]
        # another cell that might be the same location
        for co, (cs, cv) in o.cells.items():
            d = sub(off, co)
            if not d[1]:
                if d[0] >= cs or d[0] + size <= 0:
                    continue
                if d[0] == 0 and cs == size:
                    return self.retype(st, cv, ty)
                if self.all_content(o, off, size):
                    return [(st, ("x", "content"))]
                st.lossy("partly overlapping read")
                return [(st, self.unknown(st, ty))]
            if self.ent(st, add(d, const(-cs))) or self.ent(st, sub(const(-size), d)):
                continue
            if self.ent(st, d) and self.ent(st, scale(d, -1)) and cs == size:
                return self.retype(st, cv, ty)
            st.lossy("read at an index that may equal another")
            return [(st, self.unknown(st, ty))]
        if o.attr.get("bytes") and off[1]:
            return self.table_load(st, o, off, size, ty)
        if o.init == "zero":
            return [(st, NULL if ty == "ptr" else C(width(ty), 0))]
        if o.init == "undef":
            return [(st, ("u", width(ty)))]
        if self.coarse and ty != "ptr":
            return [(st, ("x", "data"))]
        r = self.unknown(st, ty)
        no = st.mut(v[1])
        if not o.ro or True:
            no.cells[off] = (size, r)
        return [(st, r)]

    def table_load(self, st, o, off, size, ty):
        """constant table indexed by a finite term"""
        if size == 1 and len(off[1]) == 1:
            (s, c), = off[1]
            if isinstance(s, tuple) and s[0] == "T" and c == 1:
                base, data = o.attr["bytes"][0]
                x = ("bin", "add", 64, s[1], ("k", off[0] - base)) if off[0] != base else s[1]
                name = "tab:" + data.hex()
                FNS[name] = lambda v, d=data: d[v] if v < len(d) else 0
                return [(st, self.mkterm(st, 8, ("fn", name, x)))]
        st.lossy("read from a constant table at an unknown index")
        return [(st, self.unknown(st, ty))]

    def read_bytes(self, st, o, off, size):
        out = []
        for base, data in o.attr.get("bytes", ()):
            if base <= off and off + size <= base + len(data):
                return data[off - base:off - base + size]
        if o.attr.get("bytes") and o.init == "zero":
            return bytes(size)
        for i in range(size):
            c = o.cells.get(const(off + i))
            if c is None or c[0] != 1 or not isconst(c[1]):
                # part of a bigger constant?
                hit = None
                for co, (cs, cv) in o.cells.items():
                    if not co[1] and co[0] <= off + i < co[0] + cs and cv[0] == "l" and isconst(cv):
                        hit = (cval(cv) >> (8 * (off + i - co[0]))) & 255
                if hit is None:
                    return None
                out.append(hit)
            else:
                out.append(cval(c[1]))
        return bytes(out)

    def unknown(self, st, ty):
        if ty == "ptr":
            oid = st.new(Obj("ext", None, "unk", tag="external object"))
            return P(oid)
        w = width(ty)
        if not w:
            return ("x", ty)
        s = fresh("v")
        if w <= 128:
            self.assume(st, sym(s))
            self.assume(st, sub(const((1 << w) - 1), sym(s)))
        return L(w, sym(s))

    def retype(self, st, v, ty):
        if ty == "ptr":
            if v[0] == "l":
                return [(st, self.toptr(st, v))]
            return [(st, v)]
        if v[0] == "p" and ty.startswith("i"):
            return [(st, L(64, self.lin_of(st, v)))]
        if v[0] == "u":
            return [(st, ("u", width(ty)))]
        return [(st, v)]

    def toptr(self, st, v):
        e = v[2] if v[0] == "l" else self.lin_of(st, v)
        for s, c in e[1]:
            if isinstance(s, tuple) and s[0] == "A" and c == 1:
                return P(s[1], sub(e, sym(s)))
        if not e[1]:
            x = e[0] % (1 << 64)
            return NULL if x == 0 else P(("K", x))
        return ("x", "ptr")

    def store(self, st, v, val, size):
        """[state]"""
        self.stats["stores"] += 1
        o = self.deref(st, v, size, "write")
        if o is None:
            return []
        off = v[2]
        if o.kind == "seq":
            return self.seq_store(st, v[1], off, val, size)
        h = o.attr.get("onstore")
        if h:
            r = self.hooks[h](self, st, v[1], off, size, val)
            if r is not None:
                return r
        if o.ro:
            self.report("memory", st, "write to a constant (%s)" % o.tag)
            return []
        if o.kind == "global" and "global-write" in self.hooks:
            self.hooks["global-write"](self, st, o)
        st = self.bounds(st, o, off, size, "write")
        if st is None:
            return []
        o = st.mut(v[1])
        if self.is_coarse(o):
            o.cells = {}; o.init = "unk"
            return [st]
        kill = []
        for co, (cs, cv) in o.cells.items():
            if co == off and cs <= size:
                continue
            d = sub(off, co)
            if not d[1]:
                if d[0] >= cs or d[0] + size <= 0:
                    continue
                # overlapping constant pieces: split integers bytewise when possible
                kill.append((co, d[0]))
                continue
            if self.ent(st, add(d, const(-cs))) or self.ent(st, sub(const(-size), d)):
                continue
            kill.append((co, None))
        for co, d in kill:
            cs, cv = o.cells.pop(co)
            if d is not None and isconst(cv) and cv[0] == "l":
                x = cval(cv)
                for i in range(cs):
                    if not (d <= i < d + size):
                        o.cells[add(co, const(i))] = (1, C(8, (x >> (8 * i)) & 255))
            elif d is None:
                o.cells[co] = (cs, ("x", "may be overwritten")) if cs else None
        o.cells[off] = (size, val)
        return [st]

    def is_coarse(self, o):
        return self.coarse is not None and o.kind != "seq" and o.size is not None and not o.size[1] and o.size[0] >= self.coarse

    # ------------------------------------------------------------ sequences
    def chunk_at(self, st, seq, off):
        """(index, chunk, offset inside, start) holding offset `off`, or None; ('end',...) at the end"""
        p = ZERO
        for i, c in enumerate(seq):
            n = ONE if c[0] == "b" else sub(c[3], c[2]) if c[0] == "T" else c[2]
            d = sub(off, p)
            if self.ent(st, d) and self.ent(st, sub(sub(n, d), ONE)):
                return i, c, d, p
            p = add(p, n)
        return None

    def tape_byte(self, st, tid, at):
        """[(state, value)] of the tape byte at absolute offset `at` (which may be the end)"""
        t = st.tapes[tid]
        if at == ZERO and t.pos != ZERO:
            h = self.hooks.get("rewind")
            if h and h(self, st, tid):
                t = st.tapes[tid]
        rel = sub(at, t.pos)
        if rel[1]:
            for k in range(-4, 8):
                d = sub(rel, const(k))
                if self.ent(st, d) and self.ent(st, scale(d, -1)):
                    rel = const(k)
                    break
        if rel[1]:
            # far from the position: any byte of the text
            st.lossy("text byte at an index unrelated to the position")
            s = self.newfin(st, t.dom | ({END} if t.end else set()))
            return [(st, ("t", 8, ("s", s, 8)))]
        k = rel[0]
        if k in t.cells:
            return [(st, self.mkterm(st, 8, ("s", t.cells[k], 8)))]
        if k < t.floor:
            st.lossy("text byte before the analysed window")
        here = add(t.pos, const(k))
        dom = set(t.dom)
        if t.end:
            if self.ent(st, sub(t.len, add(here, ONE))):
                pass
            elif self.ent(st, sub(here, t.len)):
                dom = {END}
            else:
                dom.add(END)
        s = self.newfin(st, dom)
        t = st.mtape(tid)
        t.cells[k] = s
        # a byte before the end implies every earlier one is too (facts already say so)
        if END not in dom:
            pass
        return [(st, self.mkterm(st, 8, ("s", s, 8)))]

    def seq_load(self, st, oid, off, size, ty):
        o = st.heap[oid]
        st = self.bounds(st, o, off, size, "read")
        if st is None:
            return []
        if size != 1:
            st.lossy("wide read from a sequence")
            return [(st, self.unknown(st, ty))]
        seq = o.seq
        # a sequence that is exactly one text: the terminator is part of it
        if len(seq) == 1 and seq[0][0] == "T" and o.attr.get("nul") and st.tapes[seq[0][1]].end \
                and seq[0][3] == st.tapes[seq[0][1]].len:
            return self.tape_byte(st, seq[0][1], add(seq[0][2], off))
        n = self.seq_len(st, seq)
        hit = self.chunk_at(st, seq, off)
        if hit is None:
            if self.ent(st, sub(off, n)):
                return [(st, C(8, 0))]
            a, b = self.split(st, sub(off, n))
            out = []
            if a is not None:
                out.append((a, C(8, 0)))
            if b is not None:
                hit = self.chunk_at(b, seq, off)
                if hit is None:
                    b.lossy("byte of a sequence at an unknown place")
                    out.append((b, self.unknown(b, ty)))
                else:
                    out.extend(self.chunk_byte(b, hit, ty))
            return out
        return self.chunk_byte(st, hit, ty)

    def chunk_byte(self, st, hit, ty):
        i, c, d, p = hit
        if c[0] == "b":
            return [(st, self.simp(st, c[1]))]
        if c[0] == "T":
            return self.tape_byte(st, c[1], add(c[2], d))
        if isinstance(c[1], tuple) and c[1][0] == "rep" and isinstance(c[1][1], int):
            return [(st, C(8, c[1][1]))]
        h = self.hooks.get("gbyte")
        if h:
            r = h(self, st, c, d)
            if r is not None:
                return r
        st.lossy("byte of summarised content")
        return [(st, self.unknown(st, ty))]

    def seq_store(self, st, oid, off, val, size):
        o = st.heap[oid]
        st = self.bounds(st, o, off, size, "write")
        if st is None:
            return []
        o = st.mut(oid)
        hit = self.chunk_at(st, o.seq, off) if size == 1 else None
        if hit is None:
            n = self.seq_len(st, o.seq)
            if size == 1 and isconst(val) and cval(val) == 0 and self.ent(st, sub(off, n)):
                return [st]
            st.lossy("write into a sequence at an unknown place")
            o.seq = (("G", fresh("any"), n),)
            return [st]
        i, c, d, p = hit
        if c[0] == "b":
            o.seq = o.seq[:i] + (("b", val),) + o.seq[i + 1:]
        elif c[0] == "T":
            mid = []
            a = add(c[2], d)
            mid.append(("T", c[1], c[2], a)); mid.append(("b", val)); mid.append(("T", c[1], add(a, ONE), c[3]))
            o.seq = o.seq[:i] + tuple(x for x in mid if x[0] == "b" or not self.is_empty(st, x)) + o.seq[i + 1:]
        elif isinstance(c[1], tuple) and c[1][0] == "rep" and isinstance(c[1][1], int):
            after = sub(sub(c[2], d), ONE)
            pre = () if self.ent(st, scale(d, -1)) else ((c[0], c[1], d),)
            post = () if self.ent(st, scale(after, -1)) else ((c[0], c[1], after),)
            o.seq = o.seq[:i] + pre + (("b", val),) + post + o.seq[i + 1:]
        else:
            h = self.hooks.get("gstore")
            if h and h(self, st, oid, i, c, d, val):
                return [st]
            st.lossy("write into summarised content")
            n = self.seq_len(st, o.seq)
            o.seq = (("G", fresh("any"), n),)
        return [st]

    def is_empty(self, st, c):
        if c[0] != "T":
            return False
        d = sub(c[3], c[2])
        return not d[1] and d[0] == 0

    # handle cells: std::string, std::vector<char> ...
    def handle(self, st, v, what="string"):
        """oid of the sequence a container object at pointer v holds"""
        if v[0] != "p" or v[1] == NULLOID:
            self.give_up(st, "%s behind an unknown pointer" % what)
            return None
        o = self.deref(st, v, 8, "use of a %s" % what)
        if o is None:
            return None
        c = o.cells.get(v[2])
        if c is None or c[1][0] != "S":
            if o.kind == "ext" or o.init == "unk":
                n = fresh("n")
                self.assume(st, sym(n))
                self.assume(st, sub(const(1 << 62), sym(n)))
                s = st.new(Obj("seq", None, tag=what, attr={"nul": True}, seq=(("G", fresh("any"), sym(n)),)))
                st.mut(v[1]).cells[v[2]] = (32, ("S", s))
                return s
            self.give_up(st, "no %s at this address" % what)
            return None
        return c[1][1]

    def set_handle(self, st, v, seq, size=32, nul=True, tag="string"):
        s = st.new(Obj("seq", None, tag=tag, attr={"nul": nul}, seq=tuple(seq)))
        o = self.deref(st, v, size, "construction of a %s" % tag)
        if o is None:
            return None
        st2 = self.bounds(st, o, v[2], size, "construction of a %s" % tag)
        if st2 is None:
            return None
        o = st.mut(v[1])
        for co in list(o.cells):
            d = sub(co, v[2])
            if not d[1] and 0 <= d[0] < size:
                del o.cells[co]
        o.cells[v[2]] = (size, ("S", s))
        return s

    # ------------------------------------------------------------ arithmetic
    def trunc(self, st, v, w):
        if v[0] == "l":
            e = v[2]
            if not e[1]:
                return C(w, e[0] % (1 << w))
            return L(w, e)
        if v[0] == "t":
            return self.mkterm(st, w, ("cast", "trunc", v[1], w, v[2]))
        if v[0] == "u":
            return ("u", w)
        if v[0] == "p":
            return L(w, self.lin_of(st, v))
        return ("x", "trunc")

    def bin(self, st, op, w, a, b, nuw=False, nsw=False):
        """[(state, value)]"""
        if a[0] in ("u",) or b[0] in ("u",):
            return [(st, ("u", w))]
        if a[0] in ("x", "fp", "zero") or b[0] in ("x", "fp", "zero"):
            if "xbin" in self.hooks:
                r = self.hooks["xbin"](self, st, op, w, a, b)
                if r is not None:
                    return r
            if isconst(b) and a[0] == "x" and op in ("and", "urem", "lshr"):
                m = cval(b) if op == "and" else cval(b) - 1 if op == "urem" else mask(w) >> min(cval(b), w)
                if 0 <= m < 1 << 31:
                    s = fresh("part")
                    self.assume(st, sym(s)); self.assume(st, sub(const(m), sym(s)))
                    return [(st, L(w, sym(s)))]
            return [(st, ("x", "arith"))]
        if isconst(a) and isconst(b):
            if op in ("udiv", "urem", "sdiv", "srem") and cval(b) == 0:
                self.report("memory", st, "division by zero")
                return []
            return [(st, C(w, binop(op, w, cval(a), cval(b))))]
        if a[0] == "t" or b[0] == "t":
            xa, xb = self.expr_of(a), self.expr_of(b)
            if xa is not None and xb is not None:
                return [(st, self.mkterm(st, w, ("bin", op, w, xa, xb)))]
        if op in ("add", "sub"):
            ea, eb = self.lin_of(st, a), self.lin_of(st, b)
            return [(st, L(w, add(ea, eb) if op == "add" else sub(ea, eb)))]
        if op == "mul":
            if isconst(b):
                return [(st, L(w, scale(self.lin_of(st, a), sval(b) if w <= 64 else cval(b))))]
            if isconst(a):
                return [(st, L(w, scale(self.lin_of(st, b), sval(a))))]
        if op == "shl" and isconst(b) and cval(b) < w:
            return [(st, L(w, scale(self.lin_of(st, a), 1 << cval(b))))]
        if op == "xor" and isconst(b) and cval(b) == mask(w):
            return [(st, L(w, sub(const(-1), self.lin_of(st, a))))]
        if op == "xor" and w == 1:
            pass
        if op in ("udiv", "urem", "lshr") and isconst(b):
            d = cval(b) if op != "lshr" else 1 << cval(b)
            if d == 0:
                self.report("memory", st, "division by zero")
                return []
            out = []
            for s2, e in self.norm_u(st, w, self.lin_of(st, a)):
                q = self.quot(s2, w, e, d)
                out.append((s2, L(w, q if op != "urem" else sub(e, scale(q, d)))))
            return out
        if op in ("sdiv", "srem", "ashr") and isconst(b):
            d = sval(b) if op != "ashr" else 1 << cval(b)
            out = []
            for s2, e in self.norm_s(st, w, self.lin_of(st, a)):
                p_, n_ = self.split(s2, e)
                if p_ is not None and d > 0:
                    q = self.quot(p_, w, e, d)
                    out.append((p_, L(w, q if op != "srem" else sub(e, scale(q, d)))))
                if n_ is not None:
                    if op == "ashr":
                        # floor division of a negative number
                        s = ("O", "fdiv", w, e, d)
                        r = sub(e, scale(sym(s), d))
                        self.assume(n_, r); self.assume(n_, sub(const(d - 1), r))
                        out.append((n_, L(w, sym(s))))
                    elif d > 0:
                        q = self.quot(n_, w, scale(e, -1), d)
                        out.append((n_, L(w, scale(q, -1) if op != "srem" else add(e, scale(q, d)))))
                    else:
                        out.append((n_, L(w, self.opaque(n_, op, w, e, const(d)))))
                if p_ is not None and d <= 0:
                    out.append((p_, L(w, self.opaque(p_, op, w, e, const(d)))))
            return out
        if op in ("udiv", "urem"):
            out = []
            for s1, ea in self.norm_u(st, w, self.lin_of(st, a)):
                for s2, eb in self.norm_u(s1, w, self.lin_of(s1, b)):
                    if self.possible(s2, scale(eb, -1)):
                        ok, bad = self.split(s2, sub(eb, ONE))
                        if bad is not None:
                            self.report("memory", bad, "division by zero")
                        if ok is None:
                            continue
                        s2 = ok
                    e = self.opaque(s2, op, w, ea, eb)
                    if op == "urem":
                        self.assume(s2, sub(sub(eb, ONE), e))
                        self.assume(s2, sub(ea, e))
                    else:
                        self.assume(s2, sub(ea, e))
                    out.append((s2, L(w, e)))
            return out
        if op == "and":
            if isconst(a):
                a, b = b, a
            if isconst(b):
                m = cval(b)
                if m & (m + 1) == 0:      # 2^k - 1
                    if m == mask(w):
                        return [(st, a)]
                    return self.bin(st, "urem", w, a, C(w, m + 1))
                inv = mask(w) & ~m
                if inv & (inv + 1) == 0:  # clears the low bits
                    out = []
                    ea = self.lin_of(st, a) if a[0] == "l" else ZERO
                    if any(isinstance(s, tuple) and s[0] == "A" and c == 1 for s, c in ea[1]):
                        t = fresh("low")      # an address is rounded down
                        self.assume(st, sym(t)); self.assume(st, sub(const(inv), sym(t)))
                        return [(st, L(w, sub(ea, sym(t))))]
                    for s2, e in self.norm_u(st, w, self.lin_of(st, a)):
                        q = self.quot(s2, w, e, inv + 1)
                        out.append((s2, L(w, scale(q, inv + 1))))
                    return out
            out = []
            for s1, ea in self.norm_u(st, w, self.lin_of(st, a)):
                for s2, eb in self.norm_u(s1, w, self.lin_of(s1, b)):
                    e = self.opaque(s2, "and", w, ea, eb)
                    self.assume(s2, sub(ea, e)); self.assume(s2, sub(eb, e))
                    out.append((s2, L(w, e)))
            return out
        if op == "or":
            for x, y in ((a, b), (b, a)):
                if isconst(x) and cval(x) == 0:
                    return [(st, y)]
        out = []
        for s1, ea in self.norm_u(st, w, self.lin_of(st, a)):
            for s2, eb in self.norm_u(s1, w, self.lin_of(s1, b)):
                e = self.opaque(s2, op, w, ea, eb)
                if op == "or":
                    self.assume(s2, sub(e, ea)); self.assume(s2, sub(e, eb))
                    self.assume(s2, sub(add(ea, eb), e))
                if op == "xor":
                    self.assume(s2, sub(add(ea, eb), e))
                out.append((s2, L(w, e)))
        return out

    def all_content(self, o, off, size):
        """the bytes read were each written, as opaque content or as known numbers, and some are content"""
        if not o.cells or off[1]:
            return False
        left, some = set(range(off[0], off[0] + size)), False
        for co, (cs, cv) in o.cells.items():
            if co[1]:
                return False
            part = left & set(range(co[0], co[0] + cs)) if cs <= 4096 else left
            if part and cv != ("x", "content") and not (cv[0] == "l" and not cv[2][1]):
                return False
            some = some or bool(part) and cv == ("x", "content")
            left -= part
        return some and not left

    def quot(self, st, w, e, d):
        if d == 1:
            return e
        if not e[1]:
            return const(e[0] // d)
        # exact when all coefficients divide
        if all(c % d == 0 for _, c in e[1]):
            return (e[0] // d, tuple((s, c // d) for s, c in e[1]))
        if self.lossy_quotients:
            st.lossy("a quotient, whose remainder may be forgotten")
        s = ("O", "quot", e, d)
        q = sym(s)
        r = sub(e, scale(q, d))
        self.assume(st, q)
        self.assume(st, r)
        self.assume(st, sub(const(d - 1), r))
        if self.keep_quotients:
            st.ghost["quot %r %d" % (e, d)] = L(64, q)     # stays known although the program forgets it
        return q

    def cmp(self, st, p, w, a, b):
        """[(state, i1 value)]"""
        if a[0] == "u" or b[0] == "u":
            self.report("uninit", st, "comparison of an uninitialised value")
            return [(st.copy(), BTRUE), (st, BFALSE)]
        if a[0] in ("p", "f") or b[0] in ("p", "f"):
            return self.pcmp(st, p, a, b)
        if a[0] in ("x", "fp", "zero") or b[0] in ("x", "fp", "zero"):
            if "xcmp" in self.hooks:
                r = self.hooks["xcmp"](self, st, p, a, b)
                if r is not None:
                    return r
            st.lossy("comparison of an unknown value")
            return [(st.copy(), BTRUE), (st, BFALSE)]
        if isconst(a) and isconst(b):
            return [(st, BTRUE if icmp(p, w, cval(a), cval(b)) else BFALSE)]
        xa, xb = self.expr_of(a), self.expr_of(b)
        if xa is not None and xb is not None and (a[0] == "t" or b[0] == "t" or True) and not (isconst(a) and isconst(b)):
            return [(st, self.mkterm(st, 1, ("cmp", p, w, xa, xb)))]
        out = []
        norm = self.norm_s if p[0] == "s" else self.norm_u
        for s1, ea in norm(st, w, self.lin_of(st, a)):
            for s2, eb in norm(s1, w, self.lin_of(s1, b)):
                d = sub(ea, eb)
                out.extend(self.cmp_lin(s2, p, d))
        return out

    def cmp_lin(self, st, p, d):
        """compare d with 0"""
        if p in ("eq", "ne"):
            ge, lt = self.split(st, d)
            t, f = [], []
            if ge is not None:
                le, gt = self.split(ge, scale(d, -1))
                if le is not None:
                    t.append(le)
                if gt is not None:
                    f.append(gt)
            if lt is not None:
                f.append(lt)
            if p == "ne":
                t, f = f, t
            return [(s, BTRUE) for s in t] + [(s, BFALSE) for s in f]
        r = p[1:]
        if r == "ge": e = d
        elif r == "gt": e = sub(d, ONE)
        elif r == "le": e = scale(d, -1)
        else: e = sub(scale(d, -1), ONE)
        a, b = self.split(st, e)
        return ([(a, BTRUE)] if a is not None else []) + ([(b, BFALSE)] if b is not None else [])

    def pcmp(self, st, p, a, b):
        for x in (a, b):
            if x[0] == "x":
                st.lossy("comparison of an unknown pointer")
                return [(st.copy(), BTRUE), (st, BFALSE)]
            if x[0] == "l":
                return self.pcmp(st, p, self.toptr(st, a) if a[0] == "l" else a, self.toptr(st, b) if b[0] == "l" else b)
        if a[0] == "f" or b[0] == "f":
            same = a == b
            return [(st, BTRUE if same == (p == "eq") else BFALSE)]
        if a[1] == b[1]:
            return self.cmp_lin(st, p if p in ("eq", "ne") else "u" + p[1:], sub(a[2], b[2]))
        # an external pointer may be null unless marked
        for x, y in ((a, b), (b, a)):
            if y[1] == NULLOID and x[1] != NULLOID and not isinstance(x[1], tuple):
                o = st.heap.get(x[1])
                if o is not None and o.attr.get("maybenull"):
                    raise Undecided("nullness not split")
        if p in ("eq", "ne"):
            return [(st, BFALSE if p == "eq" else BTRUE)]
        if "addrcmp" in self.hooks:
            self.hooks["addrcmp"](self, st)
        st2 = st.copy()
        return [(st2, BTRUE), (st, BFALSE)]

    # ------------------------------------------------------------ running
    def push(self, st, fn, args, onret=None, data=None):
        f = Frame(fn)
        self.functions_seen.add(fn.name)
        for i, a in enumerate(args):
            f.regs[i] = a
        f.onret = onret
        f.data = data
        st.frames.append(f)
        return st

    def explore(self, st, fn, args):
        """runs `fn` from the state; returns the outcomes [(kind, state, value)]"""
        self.outcomes = []
        self.push(st, fn, args)
        work = [st]
        self.work = work
        t0 = time.time()
        self.waiting = {}
        import loops
        while work or self.waiting:
            if work:
                s = work.pop()
            else:
                k = max(self.waiting)
                grp = self.waiting.pop(k)
                if k[3] == 0:
                    work.extend(loops.merge(self, grp))
                else:
                    for s in loops.merge(self, grp, False):
                        try:
                            r = loops.process(self, s)
                        except Undecided as u:
                            self.give_up(s, str(u))
                            continue
                        except (jobs.Spent, MemoryError):
                            self.give_up(s, "time or memory ran out")
                            return self.outcomes
                        if r is not None:
                            work.append(r)
                if self.stats["steps"] > self.max_steps or (self.deadline and time.time() > self.deadline):
                    self.give_up(grp[0], "analysis budget used up")
                    break
                continue
            try:
                self.run(s, work)
            except Undecided as u:
                self.give_up(s, str(u))
            except (jobs.Spent, MemoryError):
                self.give_up(s, "time or memory ran out")
                break
            except (KeyError, TypeError, IndexError, AttributeError, ValueError) as u:
                if os.environ.get("SA_RAISE"):
                    raise
                self.give_up(s, "the analysis cannot follow this: %s %s" % (type(u).__name__, u))
            if self.stats["steps"] > self.max_steps or (self.deadline and time.time() > self.deadline):
                self.give_up(s, "analysis budget used up")
                break
            if self.findings:
                if self.stop_at is None:
                    self.stop_at = self.stats["steps"] + self.grace
                elif self.stats["steps"] > self.stop_at:
                    break
        return self.outcomes

    def finish(self, st, kind, val):
        self.stats["states"] += 1
        h = self.hooks.get("outcome")
        if h:
            h(self, st, kind, val)
        self.outcomes.append((kind, st, val))

    def run(self, st, work):
        while True:
            if not st.frames:
                return
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.idx]
            self.stats["steps"] += 1
            if self.stats["steps"] > self.max_steps:
                return
            if not self.stats["steps"] & 255 and jobs.spent():
                raise jobs.Spent
            nxt = self.step(st, f, ins)
            if nxt is None:
                continue
            if not nxt:
                return
            if len(nxt) == 1:
                st = nxt[0]
                continue
            work.extend(nxt[1:])
            st = nxt[0]

    def setreg(self, st, ins, results):
        """[(state, value)] -> states with the result register set and idx advanced"""
        out = []
        for s, v in results:
            f = s.frames[-1]
            f.regs[ins["d"]] = v
            f.idx += 1
            out.append(s)
        return out

    def step(self, st, f, ins):
        o = ins["o"]
        h = getattr(self, "op_" + o, None)
        if h is not None:
            return h(st, f, ins)
        if o in BINOPS:
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            return self.setreg(st, ins, self.bin(st, o, width(ins["t"]), a, b))
        if o in ("fadd", "fsub", "fmul", "fdiv", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "fneg", "frem"):
            f.regs[ins["d"]] = self.unknown(st, ins["t"]) if ins["t"].startswith("i") else ("x", "fp")
            if ins["t"].startswith("i"):
                st.lossy("floating point")
            f.idx += 1
            return None
        raise Undecided("instruction %s" % o)

    def op_alloca(self, st, f, ins):
        sz = const(ins["size"])
        if "count" in ins:
            n = self.val(st, ins["count"][0])
            sz = scale(self.lin_of(st, n), ins["size"])
        oid = st.new(Obj("stack", sz, "undef", tag=ins.get("name") or "local"))
        f.allocas = f.allocas + (oid,)
        f.regs[ins["d"]] = P(oid)
        f.idx += 1

    def op_load(self, st, f, ins):
        v = self.val(st, ins["a"][0])
        return self.setreg(st, ins, self.load(st, v, ins["sz"], ins["t"]))

    def op_store(self, st, f, ins):
        v = self.val(st, ins["a"][0])
        p = self.val(st, ins["a"][1])
        if v[0] == "zero":
            v = C(ins["sz"] * 8, 0)
        r = self.store(st, p, v, ins["sz"])
        for s in r:
            s.frames[-1].idx += 1
        return r

    def op_getelementptr(self, st, f, ins):
        b = self.val(st, ins["base"])
        if b[0] == "f" or ins.get("unknown"):
            raise Undecided("address arithmetic")
        states = [(st, const(ins["off"]))]
        for o, sc in ins.get("vars", ()):
            nxt = []
            for s, e in states:
                v = self.val(s, o)
                if v[0] in ("u",):
                    self.report("uninit", s, "address computed from an uninitialised value")
                    continue
                if v[0] in ("x",):
                    raise Undecided("address arithmetic with an unknown value")
                iw = v[1] if v[0] in ("l", "t") else 64
                le = self.lin_of(s, v)
                if iw < 64 or v[0] == "l":
                    for s2, e2 in self.norm_s(s, iw, le):
                        nxt.append((s2, add(e, e2, sc)))
                else:
                    nxt.append((s, add(e, le, sc)))
            states = nxt
        out = []
        for s, e in states:
            if b[0] == "p":
                r = P(b[1], add(b[2], e))
                if b[1] == NULLOID and (e[1] or e[0]):
                    self.hooks.get("nullarith", lambda *a: None)(self, s)
            elif b[0] == "u":
                r = b
            else:
                r = b
            out.append((s, r))
        return self.setreg(st, ins, out)

    def cast(self, st, ins, fn):
        v = self.val(st, ins["a"][0])
        if v[0] in ("u", "x", "fp"):
            v2 = ("u", width(ins["t"])) if v[0] == "u" else v
            return self.setreg(st, ins, [(st, v2)])
        return self.setreg(st, ins, fn(v, width(ins["st"]), width(ins["t"])))

    def op_zext(self, st, f, ins):
        def go(v, w0, w1):
            if v[0] == "t":
                return [(st, self.mkterm(st, w1, ("cast", "zext", w0, w1, v[2])))]
            return [(s, L(w1, e)) for s, e in self.norm_u(st, w0, self.lin_of(st, v))]
        return self.cast(st, ins, go)

    def op_sext(self, st, f, ins):
        def go(v, w0, w1):
            if v[0] == "t":
                return [(st, self.mkterm(st, w1, ("cast", "sext", w0, w1, v[2])))]
            return [(s, L(w1, e)) for s, e in self.norm_s(st, w0, self.lin_of(st, v))]
        return self.cast(st, ins, go)

    def op_trunc(self, st, f, ins):
        def go(v, w0, w1):
            r = self.trunc(st, v, w1)
            if w1 == 1 and r[0] == "l" and r[2][1]:
                # keep booleans constant
                return [(s, C(1, 0) if not e[1] and e[0] == 0 else L(1, e)) for s, e in self.norm_u(st, 1, r[2])]
            return [(st, r)]
        return self.cast(st, ins, go)

    def op_bitcast(self, st, f, ins):
        f.regs[ins["d"]] = self.val(st, ins["a"][0])
        f.idx += 1

    op_freeze = op_bitcast

    def op_ptrtoint(self, st, f, ins):
        v = self.val(st, ins["a"][0])
        if v[0] == "p":
            r = L(64, self.lin_of(st, v))
        elif v[0] == "u":
            r = ("u", 64)
        else:
            r = ("x", "ptr")
        f.regs[ins["d"]] = r
        f.idx += 1

    def op_inttoptr(self, st, f, ins):
        v = self.val(st, ins["a"][0])
        f.regs[ins["d"]] = self.toptr(st, v) if v[0] in ("l", "t") else v
        f.idx += 1

    def op_icmp(self, st, f, ins):
        a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
        w = 64
        for v in (a, b):
            if v[0] in ("l", "t"):
                w = v[1]
        r = self.cmp(st, ins["p"], w, a, b)
        return self.setreg(st, ins, r)

    def op_fcmp(self, st, f, ins):
        st.lossy("floating point")
        return self.setreg(st, ins, [(st.copy(), BTRUE), (st, BFALSE)])

    def truth(self, st, v):
        """[(state, bool)]"""
        if v[0] == "u":
            self.report("uninit", st, "decision on an uninitialised value")
            st2 = st.copy()
            return [(st2, True), (st, False)]
        if v[0] == "t":
            return [(s, bool(r)) for r, s in self.split_term(st, v[2], lambda x: x & 1)]
        if v[0] == "l":
            if isconst(v):
                return [(st, bool(cval(v) & 1))]
            out = []
            for s, e in self.norm_u(st, 1, v[2]):
                for s2, b in self.cmp_lin(s, "ne", e):
                    out.append((s2, b == BTRUE))
            return out
        st.lossy("decision on an unknown value")
        st2 = st.copy()
        return [(st2, True), (st, False)]

    def op_select(self, st, f, ins):
        c = self.val(st, ins["a"][0])
        a, b = self.val(st, ins["a"][1]), self.val(st, ins["a"][2])
        if c[0] == "t":
            xa, xb = self.expr_of(a), self.expr_of(b)
            if xa is not None and xb is not None and ins["t"] != "ptr":
                return self.setreg(st, ins, [(st, self.mkterm(st, width(ins["t"]), ("ite", c[2], xa, xb)))])
        return self.setreg(st, ins, [(s, a if t else b) for s, t in self.truth(st, c)])

    def op_br(self, st, f, ins):
        if len(ins["s"]) == 1:
            return self.goto(st, ins["s"][0])
        self.stats["branches"] += 1
        c = self.val(st, ins["a"][0])
        out = []
        for s, t in self.truth(st, c):
            r = self.goto(s, ins["s"][0 if t else 1])
            out.extend([s] if r is None else r)
        return out

    def op_switch(self, st, f, ins):
        self.stats["branches"] += 1
        v = self.val(st, ins["a"][0])
        if v[0] == "u":
            self.report("uninit", st, "switch on an uninitialised value")
            return []
        cases = {int(c): b for c, b in ins["cases"]}
        out = []
        if isconst(v):
            b = cases.get(cval(v), ins["def"])
            return self.goto(st, b)
        x = self.expr_of(v)
        if x is not None:
            for blk, s in self.split_term(st, x, lambda r: cases.get(r, ins["def"])):
                r = self.goto(s, blk)
                out.extend([s] if r is None else r)
            return out
        if v[0] != "l":
            raise Undecided("switch on an unknown value")
        for s, e in self.norm_u(st, v[1], v[2]):
            rest = [s]
            for c, b in cases.items():
                nr = []
                for q in rest:
                    for s2, t in self.cmp_lin(q, "eq", sub(e, const(c))):
                        if t == BTRUE:
                            r = self.goto(s2, b)
                            out.extend([s2] if r is None else r)
                        else:
                            nr.append(s2)
                rest = nr
            for q in rest:
                r = self.goto(q, ins["def"])
                out.extend([q] if r is None else r)
        return out

    def op_unreachable(self, st, f, ins):
        self.report("unreachable", st, "control reaches the end of a function that must not return here")
        return []

    def op_ret(self, st, f, ins):
        v = self.val(st, ins["a"][0]) if ins.get("a") else None
        return self.do_return(st, v)

    def do_return(self, st, v):
        f = st.frames.pop()
        for a in f.allocas:
            st.heap.pop(a, None)
        if f.onret:
            r = f.onret(self, st, "ret", v, f)
            if r is not None:
                return [x for y in r for x in self.deliver(*y)]
        r = self.deliver("ret", st, v)
        if len(f.fn.blocks) > 2 and st.frames and self.dedupe and r:
            for x in r:
                self.park(x, 0)
            return []
        return r

    def park(self, st, head):
        """holds a state back until the others that can reach the same place have arrived"""
        f = st.frames[-1]
        d, o = f.fn.order(f.blk)
        self.waiting.setdefault((len(st.frames), d, -o, head, f.blk, f.fn.name), []).append(st)

    def deliver(self, kind, st, v):
        """hand a call result to the caller frame"""
        if kind == "throw":
            return self.unwind(st, v)
        if kind == "exit":
            self.finish(st, "exit", v)
            return []
        if kind == "stop":
            return []
        if not st.frames:
            self.finish(st, "ret", v)
            return []
        f = st.frames[-1]
        ins = f.fn.blocks[f.blk][f.idx]
        if "d" in ins:
            f.regs[ins["d"]] = v
        if ins["o"] == "invoke":
            r = self.goto(st, ins["nb"])
            return [st] if r is None else r
        f.idx += 1
        return [st]

    # ------------------------------------------------------------ exceptions
    def throw(self, st, ti, oid=None):
        st.exc = (ti, oid)
        return self.unwind(st, st.exc)

    def unwind(self, st, exc):
        st.exc = exc
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.idx]
            if ins["o"] == "invoke":
                pad = self.landing(f.fn, ins["ub"])
                r = self.pad_matches(exc[0], pad)
                if r is not None:
                    res = self.goto(st, ins["ub"])
                    out = [st] if res is None else res
                    for s in out:
                        s.exc = (exc[0], exc[1], r)
                    return out
            st.frames.pop()
            for a in f.allocas:
                st.heap.pop(a, None)
            if f.onret:
                r = f.onret(self, st, "throw", exc, f)
                if r is not None:
                    return [x for y in r for x in self.deliver(*y)]
            if f.fn.nounwind and f.fn.repo:
                self.report("terminate", st, "an exception leaves %s, which must not throw: the process ends" % f.fn.dem)
                return []
        self.finish(st, "throw", exc)
        return []

    def landing(self, fn, blk):
        for i in fn.blocks[blk]:
            if i["o"] == "landingpad":
                return i
        raise Undecided("no landing pad")

    def typeid(self, ti):
        if ti not in self.typeids:
            self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    def pad_matches(self, ti, pad):
        for k, o in pad["clauses"]:
            if k == "catch":
                h = None if o[0] == "null" else o[1]
                if h is None:
                    return self.typeid(None)
                if ti is not None and self.prog.catches(ti, h):
                    return self.typeid(h)
        if pad["cleanup"]:
            return 0
        return None

    def op_landingpad(self, st, f, ins):
        ti, oid, sel = st.exc
        if oid is None:
            oid = st.new(Obj("exception", None, "unk", tag="exception"))
            st.exc = (ti, oid, sel)
        st.heap[oid] = st.heap[oid].copy()
        st.heap[oid].attr["ti"] = ti
        f.regs[ins["d"]] = ("agg", (P(oid), C(32, sel)))
        f.idx += 1
        if self.dedupe:
            import loops
            if loops.seen(self, st):
                return []

    def op_resume(self, st, f, ins):
        v = self.val(st, ins["a"][0])
        p = v[1][0] if v[0] == "agg" else None
        oid = p[1]
        ti = st.heap[oid].attr.get("ti")
        return self.resume(st, ti, oid)

    def resume(self, st, ti, oid):
        f = st.frames.pop()
        for a in f.allocas:
            st.heap.pop(a, None)
        if f.onret:
            r = f.onret(self, st, "throw", (ti, oid), f)
            if r is not None:
                return [x for y in r for x in self.deliver(*y)]
        return self.unwind(st, (ti, oid))

    def op_extractvalue(self, st, f, ins):
        v = self.val(st, ins["a"][0])
        for i in ins["ix"]:
            if v[0] == "agg":
                v = v[1][i]
            elif v[0] == "zero":
                v = C(width(ins["t"]), 0) if ins["t"].startswith("i") else NULL
            else:
                v = ("x", "part") if v[0] != "u" else ("u", width(ins["t"]))
        f.regs[ins["d"]] = v
        f.idx += 1

    def op_insertvalue(self, st, f, ins):
        a = self.val(st, ins["a"][0])
        v = self.val(st, ins["a"][1])
        ix = ins["ix"]
        if len(ix) != 1:
            raise Undecided("nested aggregate")
        parts = list(a[1]) if a[0] == "agg" else []
        while len(parts) <= ix[0]:
            parts.append(("u", 64))
        parts[ix[0]] = v
        f.regs[ins["d"]] = ("agg", tuple(parts))
        f.idx += 1

    # ------------------------------------------------------------ calls
    def op_call(self, st, f, ins):
        return self.call(st, f, ins)

    op_invoke = op_call

    def call(self, st, f, ins):
        if ins.get("asm"):
            f.regs[ins.get("d", -1)] = ("x", "asm")
            st.lossy("inline assembly")
            f.idx += 1
            return None
        callee = self.val(st, ins["f"])
        args = [self.val(st, a) for a in ins["a"]]
        if callee[0] != "f":
            h = self.hooks.get("indirect")
            if h:
                r = h(self, st, ins, callee, args)
                if r is not None:
                    return self.results(r)
            return self.unmodelled_call(st, ins, "indirect call", args)
        return self.call_fn(st, ins, callee[1], args)

    def results(self, rs):
        out = []
        for r in rs:
            if r[0] == "pushed":
                return None      # the hook pushed a frame itself
            out.extend(self.deliver(*r))
        return out

    def call_fn(self, st, ins, name, args):
        self.stats["calls"] += 1
        fn = self.prog.functions.get(name)
        dem = fn.dem if fn else name
        if fn and fn.intr or name.startswith("llvm."):
            return self.intrinsic(st, st.frames[-1], ins, name, args)
        pre = self.hooks.get("precall")
        if pre is not None and fn is not None:
            r = pre(self, st, ins, fn, args)
            if r is not None:
                return self.results(r)
        m = self.find_model(name, dem)
        if m is not None:
            r = m(self, st, ins, args, dem)
            if r is not None:
                return self.results(r)
        if fn is not None and fn.defined:
            # by-value structure arguments are copied
            for k, v in ins.items():
                if k.startswith("byval"):
                    i = int(k[5:])
                    n = v
                    oid = st.new(Obj("stack", const(n), "undef", tag="argument copy"))
                    st2 = self.copy_bytes(st, P(oid), args[i], const(n))
                    if st2 is None:
                        return []
                    args[i] = P(oid)
            depth = 0
            for g in st.frames:
                if g.fn is fn:
                    depth += 1
            if depth >= 3 or len(st.frames) > 60:
                raise Undecided("recursion in %s" % dem)
            self.push(st, fn, args)
            return None
        g = self.prog.functions.get("sa_libc_" + name)
        if g is not None:
            self.push(st, g, args)
            return None
        return self.unmodelled_call(st, ins, dem, args)

    def unmodelled_call(self, st, ins, dem, args):
        return self.results(self.unmodelled_results(st, ins, dem, args))

    def unmodelled_results(self, st, ins, dem, args):
        self.unmodelled[dem] = self.unmodelled.get(dem, 0) + 1
        h = self.hooks.get("unmodelled")
        if h:
            r = h(self, st, ins, dem, args)
            if r is not None:
                return r
        st.lossy("call of %s, which is not modelled" % dem)
        self.give_up(st, "call of %s is not modelled" % dem)
        for a in args:
            if a[0] == "p" and a[1] in st.heap and not st.heap[a[1]].ro:
                o = st.mut(a[1])
                kept = {k: c for k, c in o.cells.items() if c[1][0] == "S"}
                o.cells = kept
                o.init = "unk"
                for x in [o] + [st.mut(c[1][1]) for c in kept.values() if c[1][1] in st.heap]:
                    if x.kind == "seq":
                        n = fresh("n")
                        self.assume(st, sym(n))
                        x.seq = (("G", fresh("any"), sym(n)),)
        v = None
        if "t" in ins:
            v = self.unknown(st, ins["t"])
        return [("ret", st, v)]

    def intrinsic(self, st, f, ins, name, args):
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.stackrestore", "llvm.prefetch")):
            return self.results([("ret", st, None)])
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = self.lin_of(st, args[2])
            st2 = self.copy_bytes(st, args[0], args[1], n)
            return self.results([("ret", st2, None)]) if st2 is not None else []
        if name.startswith("llvm.memset"):
            st2 = self.fill_bytes(st, args[0], args[1], self.lin_of(st, args[2]))
            return self.results([("ret", st2, None)]) if st2 is not None else []
        if name.startswith("llvm.eh.typeid.for"):
            o = ins["a"][0]
            ti = None if o[0] == "null" else o[1]
            return self.results([("ret", st, C(32, self.typeid(ti)))])
        if name.startswith("llvm.trap"):
            self.report("unreachable", st, "trap reached")
            return []
        if name.startswith("llvm.expect"):
            return self.results([("ret", st, args[0])])
        if name.startswith("llvm.stacksave"):
            return self.results([("ret", st, NULL)])
        m = re.match(r"llvm\.(umax|umin|smax|smin)\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            p = {"umax": "uge", "umin": "ule", "smax": "sge", "smin": "sle"}[m.group(1)]
            out = []
            for s, c in self.cmp(st, p, w, args[0], args[1]):
                for s2, t in self.truth(s, c):
                    out.append(("ret", s2, args[0] if t else args[1]))
            return self.results(out)
        m = re.match(r"llvm\.abs\.i(\d+)", name)
        if m:
            w = int(m.group(1))
            out = []
            for s, e in self.norm_s(st, w, self.lin_of(st, args[0])):
                p_, n_ = self.split(s, e)
                if p_ is not None:
                    out.append(("ret", p_, L(w, e)))
                if n_ is not None:
                    out.append(("ret", n_, L(w, scale(e, -1))))
            return self.results(out)
        m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            w = int(m.group(3))
            out = []
            e = None
            a, b = self.lin_of(st, args[0]), self.lin_of(st, args[1])
            if m.group(2) == "add": e = add(a, b)
            elif m.group(2) == "sub": e = sub(a, b)
            elif not b[1]: e = scale(a, b[0])
            elif not a[1]: e = scale(b, a[0])
            if e is not None and m.group(1) == "u":
                lo, neg = self.split(st, e)
                if neg is not None:
                    out.append(("ret", neg, ("agg", (L(w, e), BTRUE))))
                if lo is not None:
                    ok, big = self.split(lo, sub(const((1 << w) - 1), e))
                    if ok is not None:
                        out.append(("ret", ok, ("agg", (L(w, e), BFALSE))))
                    if big is not None:
                        out.append(("ret", big, ("agg", (L(w, e), BTRUE))))
                return self.results(out)
        raise Undecided("intrinsic %s" % name)

    # ------------------------------------------------------------ bulk memory
    def copy_bytes(self, st, d, s, n):
        if not n[1] and n[0] == 0:
            return st
        if d[0] != "p" or s[0] != "p":
            if s[0] == "u" or d[0] == "u":
                self.report("uninit", st, "copy with an uninitialised pointer")
                return None
            raise Undecided("copy with an unknown pointer")
        so = self.deref(st, s, n, "copy from")
        if so is None:
            return None
        do = self.deref(st, d, n, "copy to")
        if do is None:
            return None
        if self.bounds(st, so, s[2], n, "copy read") is None:
            return None
        if self.bounds(st, do, d[2], n, "copy write") is None:
            return None
        h = self.hooks.get("memcpy")
        if h:
            r = h(self, st, d, s, n)
            if r is not None:
                return r if r is not False else None
        if so.attr.get("onload") or do.attr.get("onstore"):
            raise Undecided("copy of an object whose contents are modelled")
        if self.is_coarse(do):
            o = st.mut(d[1])
            o.cells = {}; o.init = "unk"
            return st
        if so.kind == "seq" and do.kind != "seq":
            return self.seq_to_mem(st, d, s, n)
        if do.kind == "seq":
            st.lossy("raw copy into a sequence")
            o = st.mut(d[1])
            o.seq = (("G", fresh("any"), self.seq_len(st, o.seq)),)
            return st
        cells = []
        if not n[1]:
            for co, (cs, cv) in so.cells.items():
                r = sub(co, s[2])
                if r[1]:
                    if self.ent(st, sub(r, n)) or self.ent(st, sub(const(-cs), r)):
                        continue
                    st.lossy("copy of an object with symbolic parts")
                    continue
                if 0 <= r[0] and r[0] + cs <= n[0]:
                    cells.append((r[0], cs, cv))
            data = self.read_bytes(st, so, s[2][0], n[0]) if not s[2][1] and so.attr.get("bytes") else None
            o = st.mut(d[1])
            for co in list(o.cells):
                r = sub(co, d[2])
                if r[1]:
                    if self.ent(st, sub(r, n)) or self.ent(st, sub(const(-o.cells[co][0]), r)):
                        continue
                    del o.cells[co]
                    o.init = "unk"
                    continue
                if -o.cells[co][0] < r[0] < n[0]:
                    del o.cells[co]
            if data is not None:
                for i, b in enumerate(data):
                    o.cells[add(d[2], const(i))] = (1, C(8, b))
                return st
            for r, cs, cv in cells:
                o.cells[add(d[2], const(r))] = (cs, cv)
            # parts not described by cells follow the source's default
            covered = sum(cs for _, cs, _ in cells)
            if covered < n[0] and (so.init != o.init or so.init == "zero"):
                if n[0] > 512 and so.init != "zero":
                    if so.init == "unk":
                        o.init = "unk"
                    return st
                have = set()
                for r, cs, cv in cells:
                    have.update(range(r, r + cs))
                k = 0
                while k < n[0]:
                    if k in have:
                        k += 1; continue
                    z = 8 if k % 8 == 0 and all(q not in have and q < n[0] for q in range(k, k + 8)) else 1
                    o.cells[add(d[2], const(k))] = (z, C(8 * z, 0) if so.init == "zero" else ("u", 8 * z) if so.init == "undef" else self.unknown(st, "i%d" % (8 * z)))
                    k += z
            return st
        # symbolic length: contents become unknown
        o = st.mut(d[1])
        und = so.init == "undef" and not so.cells
        o.cells = {}
        o.init = "undef" if und and o.init == "undef" else "unk"
        o.attr["copied"] = (s[1], n)
        return st

    def seq_to_mem(self, st, d, s, n):
        if not n[1] and n[0] <= 64:
            vals = []
            for i in range(n[0]):
                r = self.seq_load(st, s[1], add(s[2], const(i)), 1, "i8")
                if len(r) != 1:
                    break
                st, v = r[0]
                vals.append(v)
            else:
                o = st.mut(d[1])
                for co in list(o.cells):
                    q = sub(co, d[2])
                    if not q[1] and -o.cells[co][0] < q[0] < n[0]:
                        del o.cells[co]
                for i, v in enumerate(vals):
                    o.cells[add(d[2], const(i))] = (1, v)
                return st
        o = st.mut(d[1])
        for co in list(o.cells):          # what lies before or behind stays as it is
            r = sub(co, d[2])
            if not (self.ent(st, sub(r, n)) or self.ent(st, sub(const(-o.cells[co][0]), r))):
                del o.cells[co]
        o.init = "unk"
        return st

    def fill_bytes(self, st, d, v, n):
        if not n[1] and n[0] == 0:
            return st
        o = self.deref(st, d, n, "fill of")
        if o is None:
            return None
        if self.bounds(st, o, d[2], n, "fill write") is None:
            return None
        h = self.hooks.get("memset")
        if h:
            r = h(self, st, d, v, n)
            if r is not None:
                return r if r is not False else None
        if o.attr.get("onstore"):
            raise Undecided("fill of an object whose contents are modelled")
        o = st.mut(d[1])
        if self.is_coarse(o):
            o.cells = {}; o.init = "unk"
            return st
        whole = not d[2][1] and d[2][0] == 0 and o.size is not None and n == o.size
        if isconst(v) and cval(v) == 0 and whole:
            o.cells = {}
            o.init = "zero"
            return st
        if not n[1] and n[0] <= 4096 and not d[2][1]:
            for co in list(o.cells):
                r = sub(co, d[2])
                if not r[1] and -o.cells[co][0] < r[0] < n[0]:
                    del o.cells[co]
            i = 0
            while i < n[0]:
                if isconst(v) and n[0] - i >= 8 and (d[2][0] + i) % 8 == 0:
                    o.cells[add(d[2], const(i))] = (8, C(64, int.from_bytes(bytes([cval(v)]) * 8, "little")))
                    i += 8
                else:
                    o.cells[add(d[2], const(i))] = (1, v)
                    i += 1
            return st
        o.cells = {}
        o.init = "unk"
        return st

    # ------------------------------------------------------------ control transfer, loop heads
    def goto(self, st, blk):
        f = st.frames[-1]
        prev = f.blk
        b = f.fn.blocks[blk]
        vals = []
        i = 0
        while b[i]["o"] == "phi":
            for pb, o in b[i]["in"]:
                if pb == prev:
                    vals.append((b[i]["d"], self.val(st, o)))
                    break
            i += 1
        for d, v in vals:
            f.regs[d] = v
        f.blk = blk
        f.idx = i
        if blk in f.fn.heads:
            import loops
            return loops.at_head(self, st, prev)
        return None


def esubst(x, s, v):
    if x[0] == "s":
        return ("k", v & mask(x[2])) if x[1] == s else x
    if x[0] == "k":
        return x
    return tuple(esubst(y, s, v) if isinstance(y, tuple) else y for y in x)


@lru_cache(maxsize=None)
def width(ty):
    if ty and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    if ty == "ptr":
        return 64
    return 0
