"""Arrays of elements of symbolic length: contents are runs of elements of a source array and runs of equal
elements, with linear bounds.  Element values are symbols ("e", source, index) or ("r", name)."""
import re
from lin import const, sym, add, sub, scale, ZERO
from engine import *
from models import ret

UNDEF = ("undef",)


def T(tid, a, b):
    return ("T", tid, a, b)


def R(val, n):
    """n copies of one element"""
    return ("G", ("rep", val), n)


def length(c):
    return sub(c[3], c[2]) if c[0] == "T" else c[2]


def total(seq):
    n = ZERO
    for c in seq:
        n = add(n, length(c))
    return n


def head(c, d):
    return ("T", c[1], c[2], add(c[2], d)) if c[0] == "T" else ("G", c[1], d)


def tail(c, d):
    return ("T", c[1], add(c[2], d), c[3]) if c[0] == "T" else ("G", c[1], sub(c[2], d))


def tidy(E, st, seq):
    out = []
    for c in seq:
        n = length(c)
        if E.ent(st, scale(n, -1)):
            continue
        if out:
            p = out[-1]
            if p[0] == c[0] == "T" and p[1] == c[1] and p[3] == c[2]:
                out[-1] = T(c[1], p[2], c[3])
                continue
            if p[0] == c[0] == "G" and p[1] == c[1]:
                out[-1] = ("G", c[1], add(p[2], c[2]))
                continue
        out.append(c)
    return tuple(out)


def cut(E, st, seq, pos):
    """[(state, elements before pos, elements from pos on)]; 0 <= pos <= length"""
    out = []
    p = ZERO
    for i, c in enumerate(seq):
        a, b = E.split(st, sub(p, pos))
        if a is not None:
            out.append((a, tuple(seq[:i]), tuple(seq[i:])))
        if b is None:
            return out
        st = b
        n = length(c)
        a, b = E.split(st, sub(pos, add(p, n)))
        if b is not None:
            d = sub(pos, p)
            out.append((b, tuple(seq[:i]) + (head(c, d),), (tail(c, d),) + tuple(seq[i + 1:])))
        if a is None:
            return out
        st = a
        p = add(p, n)
    out.append((st, tuple(seq), ()))
    return out


def part(E, st, seq, pos, n):
    """[(state, before, the n elements at pos, after)]"""
    r = []
    for s, l, rest in cut(E, st, seq, pos):
        for s2, m, t in cut(E, s, rest, n):
            r.append((s2, l, m, t))
    return r


def chunk(val, n=ONE):
    if val[0] == "e" and n == ONE:
        return T(val[1], val[2], add(val[2], ONE))
    return R(val, n)


def same(E, st, A, B):
    """[(state, None or what differs)]; both have the same length"""
    out = []
    todo = [(st, tuple(A), tuple(B), ZERO)]
    while todo:
        s, a, b, p = todo.pop()
        if not a or not b:
            out.append((s, None))
            continue
        x, y = a[0], b[0]
        nx, ny = length(x), length(y)
        ge, lt = E.split(s, sub(nx, ny))
        for s2, n, ra, rb in ((ge, ny, (tail(x, ny),) + a[1:], b[1:]), (lt, nx, a[1:], (tail(y, nx),) + b[1:])):
            if s2 is None:
                continue
            some, none = E.split(s2, sub(n, ONE))
            if none is not None:
                todo.append((none, ra, rb, p))
            if some is None:
                continue
            vx, vy = first(x), first(y)
            if vx[0] != "e" or vy[0] != "e":
                if vx == vy:
                    todo.append((some, ra, rb, add(p, n)))
                else:
                    out.append((some, differ(E, some, p, x, y)))
                continue
            if vx[1] != vy[1]:
                out.append((some, differ(E, some, p, x, y)))
                continue
            if x[0] != y[0]:
                # a run of elements is a repeated one only where it has length one
                more, some = E.split(some, sub(n, const(2)))
                if more is not None:
                    out.append((more, differ(E, more, add(p, ONE), tail(x, ONE), tail(y, ONE))))
                if some is None:
                    continue
            d = sub(vx[2], vy[2])
            lo, less = E.split(some, d)
            if less is not None:
                out.append((less, differ(E, less, p, x, y)))
            if lo is not None:
                eq, more = E.split(lo, scale(d, -1))
                if more is not None:
                    out.append((more, differ(E, more, p, x, y)))
                if eq is not None:
                    todo.append((eq, ra, rb, add(p, n)))
            continue
    return out


def value(c):
    return c[1][1] if c[0] == "G" else None


def first(c):
    return ("e", c[1], c[2]) if c[0] == "T" else c[1][1]


def show(v):
    import lin
    if v[0] == "e":
        return "element %s of %s" % (lin.fmt(v[2]), v[1])
    return {"undef": "storage that was never set", "zero": "zero bytes", "new": "a new element"}.get(v[0], str(v[1]) if len(v) > 1 else v[0])


def differ(E, st, p, x, y):
    import lin
    return "element %s is %s instead of %s" % (lin.fmt(p), show(first(x)), show(first(y)))


class Arrays:
    """engine hooks and models; `kinds` maps the mangled spelling of an element type to its size"""

    def __init__(self, E, types):
        self.E = E
        self.types = types      # dem name -> size
        E.hooks["arr-load"] = self.load
        E.hooks["arr-store"] = self.store
        E.hooks["memcpy"] = self.memcpy
        E.hooks["memset"] = self.memset
        M = E.model
        for t, z in types.items():
            q = re.escape(t)
            if "::" in t:
                n = re.escape(t.split("::")[-1])
                M(r"^%s::%s\(%s const&\)$" % (q, n, q), self.item_copy)
                M(r"^%s::operator=\(%s const&\)$" % (q, q), self.item_copy)
                M(r"^%s::%s\((int)?\)$" % (q, n), self.item_new)
                M(r"^%s::~%s\(\)$" % (q, n), lambda E, st, ins, a, d: [ret(st)])
        M(r"(^|> |\* )std::(__)?(copy|copy_backward|move|move_backward|uninitialized_copy)<[^()]*>\([^()]*, [^()]*, [^()]*\)$", self.std_copy)
        M(r"(^|> |\* )std::(copy_n|uninitialized_copy_n)<", self.std_copy_n)
        M(r"(^|> |\* )std::(fill_n|uninitialized_fill_n)<", self.std_fill_n)
        M(r"^void std::(fill|uninitialized_fill)<", self.std_fill)
        M(r"^std::vector<.*>::(size|begin|end|data|empty)\(\) const$", self.vector)

    def make(self, st, kind, esz, seq, tag, by=None, size=None):
        return st.new(Obj(kind, scale(size if size is not None else total(seq), esz), "undef", tag=tag, seq=tuple(seq),
                          attr={"onload": "arr-load", "onstore": "arr-store", "esz": esz, "by": by}))

    def isarr(self, st, v):
        o = self.E.obj(st, v[1]) if v[0] == "p" else None
        return o is not None and "esz" in o.attr

    def index(self, esz, off):
        if off[0] % esz or any(c % esz for _, c in off[1]):
            return None
        return (off[0] // esz, tuple((s, c // esz) for s, c in off[1]))

    # ------------------------------------------------------------ single elements
    def load(self, E, st, oid, off, size, ty):
        o = st.heap[oid]
        st = E.bounds(st, o, off, size, "read")
        if st is None:
            return []
        z = o.attr["esz"]
        i = self.index(z, off)
        if i is None or size != z:
            raise Undecided("part of an element is read")
        out = []
        for s, l, m, r in part(E, st, o.seq, i, ONE):
            v = first(m[0])
            if v == UNDEF:
                E.report("elements", s, "storage that was never set is read")
                continue
            out.append((s, v))
        return out

    def store(self, E, st, oid, off, size, val):
        o = st.heap[oid]
        if o.ro:
            E.report("elements", st, "write to %s" % o.tag)
            return []
        st = E.bounds(st, o, off, size, "write")
        if st is None:
            return []
        z = o.attr["esz"]
        i = self.index(z, off)
        if i is None or size != z:
            raise Undecided("part of an element is written")
        if val[0] == "u":
            E.report("elements", st, "an uninitialised value is stored as an element")
            return []
        if isconst(val):
            val = self.fixed(val)
        if val[0] not in ("e", "r", "zero", "new"):
            raise Undecided("a computed element")
        return [self.put(s, oid, l + (chunk(val),) + r) for s, l, m, r in part(E, st, o.seq, i, ONE)]

    def fixed(self, val):
        return ("zero",) if cval(val) == 0 else ("r", "the constant %d" % cval(val))

    def put(self, st, oid, seq):
        st.mut(oid).seq = tidy(self.E, st, seq)
        return st

    def read(self, st, v, size):
        """[(state, element)]"""
        r = self.E.load(st, v, size, "i%d" % (8 * size))
        out = []
        for s, x in r:
            if x[0] == "u":
                self.E.report("elements", s, "an element that was never set is copied")
                continue
            if isconst(x):
                x = self.fixed(x)
            out.append((s, x))
        return out

    def size_of(self, d):
        for t, z in self.types.items():
            if d.startswith(t + "::"):
                return z

    def item_copy(self, E, st, ins, a, d):
        out = []
        for s, x in self.read(st, a[1], self.size_of(d)):
            for s2 in E.store(s, a[0], x, self.size_of(d)):
                out.append(ret(s2, a[0]))
        return out

    def item_new(self, E, st, ins, a, d):
        return [ret(s) for s in E.store(st, a[0], ("new",) if len(a) == 1 else ("r", "a constructed element"), self.size_of(d))]

    # ------------------------------------------------------------ ranges
    def span(self, st, v, n, what):
        """[(state, object id, index, element size)] of n >= 1 elements at v"""
        E = self.E
        o = E.deref(st, v, 1, what)
        if o is None:
            return None
        if "esz" not in o.attr:
            # a single element somewhere
            return ("cell",)
        z = o.attr["esz"]
        st = E.bounds(st, o, v[2], scale(n, z), what)
        if st is None:
            return None
        i = self.index(z, v[2])
        if i is None:
            raise Undecided("a range that starts inside an element")
        return (st, v[1], i, z)

    def get_range(self, st, v, n, what="read"):
        """[(state, chunks)]"""
        if n == ZERO:
            return [(st, ())]
        r = self.span(st, v, n, what)
        if r is None:
            return []
        if r[0] == "cell":
            raise Undecided("a range of elements in an object that is no array")
        st, oid, i, z = r
        return [(s, m) for s, l, m, t in part(self.E, st, st.heap[oid].seq, i, n)]

    def set_range(self, st, v, n, chunks, what="write"):
        r = self.span(st, v, n, what)
        if r is None:
            return []
        if r[0] == "cell":
            raise Undecided("a range of elements in an object that is no array")
        st, oid, i, z = r
        if st.heap[oid].ro:
            self.E.report("elements", st, "write to %s" % st.heap[oid].tag)
            return []
        return [self.put(s, oid, l + tuple(chunks) + t) for s, l, m, t in part(self.E, st, st.heap[oid].seq, i, n)]

    def iters(self, st, ins, a, d):
        """(sret or None, [pointer values of iterator arguments and the plain ones]) of an algorithm"""
        m = re.search(r"\((.*)\)$", d)
        ps = split_args(m.group(1))
        sret = None
        a = list(a)
        if len(a) == len(ps) + 1:
            sret = a.pop(0)
        out = []
        for p, v in zip(ps, a):
            if p.startswith("eni::PointerIterator<"):
                v = self.E.load(st, v, 8, "ptr")[0][1]
            out.append(v)
        return sret, out, ps

    def done(self, st, sret, v):
        if sret is not None:
            return [ret(s) for s in self.E.store(st, sret, v, 8)]
        return [ret(st, v)]

    def count(self, st, first_, last, z=None):
        """[(state, number of elements, element size)]"""
        E = self.E
        if first_[0] != "p" or last[0] != "p":
            raise Undecided("a range between unknown pointers")
        if first_[1] != last[1]:
            E.report("elements", st, "a range that ends in another object than it begins")
            return []
        if first_[1] == NULLOID:
            z = 1
        else:
            o = E.obj(st, first_[1])
            if o is None or "esz" not in o.attr:
                raise Undecided("a range in an object that is no array")
            z = o.attr["esz"]
        d = self.index(z, sub(last[2], first_[2]))
        if d is None:
            raise Undecided("a range that is no whole number of elements")
        ok, bad = E.split(st, d)
        if bad is not None:
            E.report("elements", bad, "a range that ends before it begins")
        return [(ok, d, z)] if ok is not None else []

    def std_copy(self, E, st, ins, a, d):
        name = re.search(r"std::(?:__)?(\w+)<", d).group(1)
        sret, (f, l, o), ps = self.iters(st, ins, a, d)
        back = name.endswith("backward")
        out = []
        for s, n, z in self.count(st, f, l):
            some, none = E.split(s, sub(n, ONE))
            if none is not None:
                out += self.done(none, sret, o)
            if some is None:
                continue
            to = P(o[1], sub(o[2], scale(n, z))) if back and o[0] == "p" else o
            end = o if back else P(o[1], add(o[2], scale(n, z))) if o[0] == "p" else o
            # the order of an overlapping copy
            if o[0] == "p" and o[1] == f[1]:
                dd = sub(to[2], f[2])
                bad = []
                # forward: to <= first or to >= last;  backward: to + n >= last or to + n <= first
                w = dd if not back else scale(dd, -1)
                pos, ok = E.split(some, sub(w, ONE))
                good = [ok] if ok is not None else []
                if pos is not None:
                    far, near = E.split(pos, sub(w, scale(n, z)))
                    if far is not None:
                        good.append(far)
                    if near is not None:
                        E.report("elements", near, "an overlapping range is copied in the wrong order")
            else:
                good = [some]
            for g in good:
                for s2, m in self.get_range(g, f, n):
                    for s3 in self.set_range(s2, to, n, m):
                        out += self.done(s3, sret, to if back else end)
        return out

    def std_copy_n(self, E, st, ins, a, d):
        sret, (f, n, o), ps = self.iters(st, ins, a, d)
        out = []
        for s, k in E.norm_s(st, 64, E.lin_of(st, n)):
            some, none = E.split(s, sub(k, ONE))
            if none is not None:
                out += self.done(none, sret, o)
            if some is not None:
                for s2, m in self.get_range(some, f, k):
                    z = s2.heap[f[1]].attr["esz"]
                    for s3 in self.set_range(s2, o, k, m):
                        out += self.done(s3, sret, P(o[1], add(o[2], scale(k, z))))
        return out

    def elem(self, st, v, ty):
        """[(state, element)] of a reference"""
        t = ty.replace(" const", "").rstrip("&")
        if t in self.types:
            return self.read(st, v, self.types[t])
        raise Undecided("an element of another type")

    def std_fill_n(self, E, st, ins, a, d):
        sret, (o, n, v), ps = self.iters(st, ins, a, d)
        out = []
        for s, k in E.norm_u(st, 64, E.lin_of(st, n)):
            some, none = E.split(s, sub(k, ONE))
            if none is not None:
                out += self.done(none, sret, o)
            if some is None:
                continue
            for s2, x in self.elem(some, v, ps[2]):
                z = self.E.obj(s2, o[1]).attr.get("esz") if o[0] == "p" and self.E.obj(s2, o[1]) else 1
                # the value must not be one of the elements that are overwritten before it is used
                for s3 in self.set_range(s2, o, k, (chunk(x, k),)):
                    out += self.done(s3, sret, P(o[1], add(o[2], scale(k, z))))
        return out

    def std_fill(self, E, st, ins, a, d):
        sret, (f, l, v), ps = self.iters(st, ins, a, d)
        out = []
        for s, n, z in self.count(st, f, l):
            some, none = E.split(s, sub(n, ONE))
            if none is not None:
                out.append(ret(none))
            if some is None:
                continue
            for s2, x in self.elem(some, v, ps[2]):
                out += [ret(s3) for s3 in self.set_range(s2, f, n, (chunk(x, n),))]
        return out

    def vector(self, E, st, ins, a, d):
        o = E.deref(st, a[0], 8, "use of a vector")
        if o is None:
            return []
        h = o.attr.get("vector")
        if h is None:
            raise Undecided("an unknown vector")
        oid = h[1]
        n = total(st.heap[oid].seq)
        z = st.heap[oid].attr["esz"]
        m = re.search(r"::(\w+)\(\) const$", d).group(1)
        if m == "empty":
            return [ret(s, t) for s, t in E.cmp(st, "eq", 64, L(64, n), C(64, 0))]
        return [ret(st, L(64, n) if m == "size" else P(oid) if m in ("begin", "data") else P(oid, scale(n, z)))]

    # ------------------------------------------------------------ raw memory
    def memcpy(self, E, st, d, s, n):
        if not self.isarr(st, d) or not self.isarr(st, s):
            return None
        k = self.index(st.heap[d[1]].attr["esz"], n)
        if k is None:
            raise Undecided("a copy of a part of an element")
        r = [x for s1, m in self.get_range(st, s, k) for x in self.set_range(s1, d, k, m)]
        if len(r) != 1:
            if not r:
                return False
            raise Undecided("a copy over pieces of unknown order")
        return r[0]

    def memset(self, E, st, d, v, n):
        if not self.isarr(st, d):
            return None
        z = st.heap[d[1]].attr["esz"]
        k = self.index(z, n)
        if k is None:
            raise Undecided("a fill of a part of an element")
        if v[0] in ("e", "r", "zero", "new") and z == 1:
            x = v
        elif isconst(v) and cval(v) == 0:
            x = ("zero",)
        else:
            raise Undecided("a bytewise fill")
        r = self.set_range(st, d, k, (chunk(x, k),))
        return r[0] if len(r) == 1 else False


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<(":
            depth += 1
        if c in ">)":
            depth -= 1
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out
