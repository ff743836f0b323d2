"""Models of the C++ standard library, the C library and the exception runtime
used by the analysed code.  Contents of strings and byte vectors are sequences."""
import re
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *

MAXLEN = const(1 << 61)


def ret(st, v=None):
    return ("ret", st, v)


def freshlen(E, st, p="n", hi=MAXLEN):
    n = sym(fresh(p))
    E.assume(st, n)
    E.assume(st, sub(hi, n))
    return n


def anyseq(E, st):
    return (("G", fresh("any"), freshlen(E, st)),)


def seqof(E, st, v, what="string"):
    s = E.handle(st, v, what)
    return None if s is None else st.heap[s].seq


def cstr_bytes(E, st, v):
    """constant C string at v, or None"""
    if v[0] != "p":
        return None
    o = E.obj(st, v[1])
    if o is None or v[2][1]:
        return None
    for base, data in o.attr.get("bytes", ()):
        i = v[2][0] - base
        if 0 <= i < len(data):
            j = data.find(b"\0", i)
            if j >= 0:
                return data[i:j]
    if o.ro and o.init == "zero" and not o.cells and not o.attr.get("bytes"):
        return b""
    return None


def const_seq(bs):
    return tuple(("b", C(8, b)) for b in bs)


def never_nul(E, st, c):
    """the bytes of this chunk are known not to be zero"""
    if c[0] == "b":
        if isconst(c[1]):
            return cval(c[1]) != 0
        try:
            return c[1][0] == "t" and 0 not in E.term_values(st, c[1][2])
        except Undecided:
            return False
    if c[0] == "T":
        return 0 not in st.tapes[c[1]].dom
    return len(c) > 3 and c[3] == "nonul"


def first_nul(E, st, o, v):
    """a whole text that may contain NUL bytes, cut at the first: none, one near the start, or one somewhere"""
    if len(o.seq) != 1 or o.seq[0][0] != "T" or v[2] != ZERO:
        return None
    _, tid, a, b = o.seq[0]
    t = st.tapes[tid]
    if a != t.pos or b != t.len or t.cells:
        return None
    out = []
    s = st.copy()
    s.mtape(tid).dom = frozenset(t.dom) - {0}
    out.append((s, o.seq))
    for k in range(0, 3):
        s = st.copy()
        if not E.assume(s, sub(sub(t.len, a), const(k + 1))):
            continue
        t2 = s.mtape(tid)
        for j in range(k + 1):
            t2.cells[j] = E.newfin(s, {0} if j == k else frozenset(t.dom) - {0})
        out.append((s, (("T", tid, a, add(a, const(k))),)))
    k = freshlen(E, st)
    if E.assume(st, sub(sub(sub(t.len, a), k), ONE)) and E.assume(st, sub(k, const(3))):
        st.lossy("text cut at a NUL")
        out.append((st, (("T", tid, a, add(a, k)),)))
    return out


def cut_short(E, st, v, n):
    """contents of a short known text up to its first NUL"""
    out, todo = [], [(st, 0, ())]
    while todo:
        s, i, acc = todo.pop()
        if i == n:
            out.append((s, acc))
            continue
        for s2, b in E.seq_load(s, v[1], add(v[2], const(i)), 1, "i8"):
            for s3, c in E.cmp(s2, "eq", 8, b, C(8, 0)):
                for s4, z in E.truth(s3, c):
                    if z:
                        out.append((s4, acc))
                    else:
                        todo.append((s4, i + 1, acc + (("b", E.simp(s4, b)),)))
    return out


def cstr_seq(E, st, v):
    """[(state, contents)] of a NUL terminated string"""
    b = cstr_bytes(E, st, v)
    if b is not None:
        return [(st, const_seq(b))]
    if v[0] == "p" and v[1] == NULLOID:
        E.report("memory", st, "a null pointer is used as a C string")
        return []
    if v[0] == "p":
        o = E.deref(st, v, 1, "read of a C string")
        if o is None:
            return []
        if o.kind == "seq":
            if o.attr.get("cstr") or o.attr.get("nonul"):
                return [(st, slice_seq(E, st, o.seq, v[2], E.seq_len(st, o.seq)))]
            if all(never_nul(E, st, c) for c in o.seq):
                return [(st, slice_seq(E, st, o.seq, v[2], E.seq_len(st, o.seq)) if v[2] != ZERO else o.seq)]
            # an embedded NUL cuts the text: contents are some prefix
            n = E.seq_len(st, o.seq)
            m = sub(n, v[2])
            if not m[1] and m[0] <= 16 and not any(c[0] == "G" for c in o.seq):
                return cut_short(E, st, v, m[0])
            sp = first_nul(E, st, o, v)
            if sp is not None:
                return sp
            k = freshlen(E, st)
            E.assume(st, sub(n, add(v[2], k)))
            h = E.hooks.get("cutcstr")
            if h:
                r = h(E, st, o, v, k)
                if r is not None:
                    return r
            if len(o.seq) == 1 and o.seq[0][0] == "G" and v[2] == ZERO:
                # any prefix is possible, and the same one each time
                key = "nulcut %s" % (o.seq[0][1],)
                if key in st.ghost:
                    k = st.ghost[key][2]
                else:
                    st.ghost[key] = L(64, k)
                return [(st, (("G", ("prefixof", o.seq[0][1]), k, "nonul"),))]
            st.lossy("text cut at a NUL")
            return [(st, (("G", fresh("prefix"), k),))]
        if o.kind == "ext":
            if "cstrseq" not in o.attr:
                q = anyseq(E, st)
                st.mut(v[1]).attr["cstrseq"] = ("@seq", q)
                return [(st, q)]
            return [(st, o.attr["cstrseq"][1])]
        # raw memory: walk bytes until NUL
        out = []
        todo = [(st, 0, ())]
        while todo:
            s, i, acc = todo.pop()
            if i > 600:
                raise Undecided("long C string in raw memory")
            o = s.heap[v[1]]
            q = o.attr.get("cstrseq")
            if q is not None and v[2] == ZERO and i == 0:
                out.append((s, q[1]))
                continue
            for s2, b in E.load(s, P(v[1], add(v[2], const(i))), 1, "i8"):
                if b[0] == "u":
                    E.report("uninit", s2, "uninitialised byte read as part of a C string")
                    continue
                if b[0] == "x" or (b[0] == "l" and b[2][1]):
                    s2.lossy("C string in memory with unknown contents")
                    out.append((s2, acc + anyseq(E, s2)))
                    continue
                x = E.expr_of(b)
                for z, s3 in E.split_term(s2, x, lambda r: r == 0):
                    if z:
                        out.append((s3, acc))
                    else:
                        todo.append((s3, i + 1, acc + (("b", E.simp(s3, b)),)))
        return out
    st.lossy("C string behind an unknown pointer")
    return [(st, anyseq(E, st))]


def slice_seq(E, st, seq, a, b):
    n = E.seq_len(st, seq)
    if a == ZERO and (b == n or (E.ent(st, sub(b, n)) and E.ent(st, sub(n, b)))):
        return seq
    if not sub(b, a)[1] and sub(b, a)[0] == 0:
        return ()
    out = []
    p = ZERO
    for c in seq:
        m = ONE if c[0] == "b" else sub(c[3], c[2]) if c[0] == "T" else c[2]
        q = add(p, m)
        # entirely before or after
        if E.ent(st, sub(a, q)):
            p = q
            continue
        if E.ent(st, sub(p, b)):
            p = q
            continue
        if E.ent(st, sub(p, a)) and E.ent(st, sub(b, q)):
            out.append(c)
        elif c[0] == "T":
            lo = c[2] if E.ent(st, sub(p, a)) else add(c[2], sub(a, p)) if E.ent(st, sub(a, p)) else None
            hi = c[3] if E.ent(st, sub(b, q)) else add(c[2], sub(b, p)) if E.ent(st, sub(q, b)) else None
            if lo is None or hi is None:
                break
            out.append(("T", c[1], lo, hi))
        else:
            break
        p = q
    else:
        m = E.seq_len(st, tuple(out))
        d = sub(sub(b, a), m)
        if d == ZERO or (E.ent(st, d) and E.ent(st, scale(d, -1))):
            return tuple(out)
    if len(seq) == 1 and seq[0][0] == "G" and E.ent(st, a) and E.ent(st, sub(n, b)) and not isinstance(seq[0][2], str) \
            and isinstance(seq[0][1], str):
        # a piece of contents about which nothing is known
        return (("G", ("prefixof", seq[0][1]) if a == ZERO else ("partof", seq[0][1]), sub(b, a)) + seq[0][3:],)
    if seq and seq[0][0] == "G" and isinstance(seq[0][1], str) and a == ZERO and E.ent(st, sub(seq[0][2], b)):
        return (("G", ("prefixof", seq[0][1]), sub(b, a)) + seq[0][3:],)
    st.lossy("part of a sequence with unknown boundaries")
    return (("G", fresh("any"), sub(b, a)),)


def data_ptr(E, st, v, what="string"):
    s = E.handle(st, v, what)
    return None if s is None else P(s)


def seq_between(E, st, a, b):
    """contents between two pointers"""
    if a[0] != "p" or b[0] != "p" or a[1] != b[1]:
        st.lossy("range between unrelated pointers")
        return [(st, anyseq(E, st))]
    o = E.deref(st, a, 0, "read of a range")
    if o is None:
        return []
    n = sub(b[2], a[2])
    if not E.ent(st, n):
        ok, bad = E.split(st, n)
        if bad is not None:
            E.report("memory", bad, "range with its end before its start")
        if ok is None:
            return []
        st = ok
    if o.kind == "seq":
        ln = E.seq_len(st, o.seq)
        E.oblige("memory", st)
        if not (E.ent(st, a[2]) and E.ent(st, sub(ln, b[2]))):
            E.report("memory", st, "range read outside %s" % o.tag)
            if not (E.assume(st, a[2]) and E.assume(st, sub(ln, b[2]))):
                return []
        if len(o.seq) == 1 and o.seq[0][0] == "T" and not n[1] and n[0] <= 16:
            # short piece of a text: take the bytes themselves
            out = [(st, ())]
            for i in range(n[0]):
                nx = []
                for s, acc in out:
                    for s2, v in E.seq_load(s, a[1], add(a[2], const(i)), 1, "i8"):
                        nx.append((s2, acc + (("b", v),)))
                out = nx
            return out
        return [(st, slice_seq(E, st, o.seq, a[2], b[2]))]
    if E.bounds(st, o, a[2], n, "read of a range") is None:
        return []
    if not n[1] and n[0] <= 256:
        acc = ()
        for i in range(n[0]):
            r = E.load(st, P(a[1], add(a[2], const(i))), 1, "i8")
            if len(r) != 1:
                raise Undecided("range of memory")
            st, v = r[0]
            if v[0] == "u":
                E.report("uninit", st, "uninitialised byte read")
            acc += (("b", v),)
        return [(st, acc)]
    q = o.attr.get("content")
    if q is not None and a[2] == ZERO:
        return [(st, slice_seq(E, st, q[1], ZERO, n))]
    h = E.hooks.get("memrange")
    if h:
        r = h(E, st, a, b)
        if r is not None:
            return r
    if o.init == "undef" and not o.cells:
        ok, some = E.split(st, sub(ZERO, n))
        if some is not None:
            E.report("uninit", some, "uninitialised memory read as contents")
        return [(s, (("G", fresh("any"), n),)) for s in (ok, some) if s is not None]
    return [(st, (("G", fresh("any"), n),))]


def fork_eq(E, st, qa, qb):
    """[(state, equal?)] for two contents"""
    na, nb = E.seq_len(st, qa), E.seq_len(st, qb)
    out = []
    for s, v in E.cmp_lin(st, "eq", sub(na, nb)):
        if v == BFALSE:
            out.append((s, False))
            continue
        if qa == qb:
            out.append((s, True))
            continue
        out.extend(eq_bytes(E, s, qa, qb))
    return out


def flat(E, st, q):
    """bytes of a content of constant length as [(state, [values])], or None"""
    n = E.seq_len(st, q)
    if n[1]:
        for k in range(0, 17):
            d = sub(n, const(k))
            if E.ent(st, d) and E.ent(st, scale(d, -1)):
                n = const(k)
                break
    if n[1] or n[0] > 64:
        return None
    if all(c[0] == "b" for c in q):
        return [(st, [E.simp(st, c[1]) for c in q])]
    out = [(st, [])]
    tmp = st.new(Obj("seq", None, tag="tmp", attr={"nul": True}, seq=q))
    for i in range(n[0]):
        nx = []
        for s, acc in out:
            if tmp not in s.heap:
                s.heap[tmp] = Obj("seq", None, tag="tmp", attr={"nul": True}, seq=q)
            for s2, v in E.seq_load(s, tmp, const(i), 1, "i8"):
                nx.append((s2, acc + [v]))
        out = nx
    for s, _ in out:
        s.heap.pop(tmp, None)
    return out


def memo(st, key):
    return st.ghost.get(("memo",), {}) if False else dict(st.ghost.get("memo", ())).get(key)


def memo_set(st, key, v):
    d = dict(st.ghost.get("memo", ()))
    d[key] = v
    st.ghost["memo"] = tuple(sorted(d.items(), key=repr))


def eq_bytes(E, st, qa, qb):
    h = E.hooks.get("seqeq")
    if h:
        r = h(E, st, qa, qb)
        if r is not None:
            return r
    if any(c[0] == "G" for c in qa + qb):
        qa = tuple(c for c in qa if not (c[0] == "G" and E.ent(st, scale(c[2], -1))))
        qb = tuple(c for c in qb if not (c[0] == "G" and E.ent(st, scale(c[2], -1))))
        if qa == qb:
            return [(st, True)]
        if qa and qb and qa[0][0] == "b" == qb[0][0]:
            out = []
            for y, c in E.cmp(st, "eq", 8, qa[0][1], qb[0][1]):
                for z, t in E.truth(y, c):
                    out += eq_bytes(E, z, qa[1:], qb[1:]) if t else [(z, False)]
            return out
        if not any(c[0] == "G" for c in qa + qb):
            return eq_bytes(E, st, qa, qb)
        key = (tuple(qa), tuple(qb))
        m = memo(st, key)
        if m is not None:
            return [(st, m)]
        s2 = st.copy()
        memo_set(st, key, True)
        memo_set(s2, key, False)
        return [(st, True), (s2, False)]
    fa = flat(E, st, qa)
    if fa is None:
        st.lossy("comparison of long texts")
        return [(st.copy(), True), (st, False)]
    out = []
    for s, va in fa:
        fb = flat(E, s, qb)
        if fb is None:
            s.lossy("comparison of long texts")
            out += [(s.copy(), True), (s, False)]
            continue
        for s2, vb in fb:
            todo = [(s2, 0)]
            while todo:
                x, i = todo.pop()
                if i == len(va) or i == len(vb):
                    out.append((x, len(va) == len(vb)))
                    continue
                for y, c in E.cmp(x, "eq", 8, va[i], vb[i]):
                    for z, t in E.truth(y, c):
                        if t:
                            todo.append((z, i + 1))
                        else:
                            out.append((z, False))
    return out


# ------------------------------------------------------------------ std::string
def install(E):
    M = E.model
    S = r"std::string::"
    # any member without a model of its own: its code works on a representation that is not there
    M(r"^([^(]* )?std::(string|vector<(unsigned )?char>)::[^(]*\(", lambda E, st, ins, a, d: E.unmodelled_results(st, ins, d, a))

    def this(args, ins):
        return args[1] if "sret" in ins else args[0]

    def ctor_default(E, st, ins, a, d):
        return [ret(st)] if E.set_handle(st, a[0], ()) is not None else []

    def ctor_copy(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        if q is None:
            return []
        return [ret(st)] if E.set_handle(st, a[0], q) is not None else []

    def ctor_move(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        if q is None:
            return []
        if E.set_handle(st, a[0], q) is None:
            return []
        st.mut(E.handle(st, a[1])).seq = ()
        return [ret(st)]

    def ctor_cstr(E, st, ins, a, d):
        out = []
        for s, q in cstr_seq(E, st, a[1]):
            if E.set_handle(s, a[0], q) is not None:
                out.append(ret(s))
        return out

    def ctor_ptr_n(E, st, ins, a, d):
        if a[1][0] == "p":
            out = []
            for s, q in seq_between(E, st, a[1], P(a[1][1], add(a[1][2], E.lin_of(st, a[2])))):
                if E.set_handle(s, a[0], q) is not None:
                    out.append(ret(s))
            return out
        raise Undecided("string from an unknown pointer")

    def rep(E, st, n, ch):
        n = E.lin_of(st, n)
        if not n[1] and 0 <= n[0] <= 64:
            return (("b", ch),) * n[0]
        return (("G", ("rep", cval(ch) if isconst(ch) else fresh("rep")), n),)

    def ctor_fill(E, st, ins, a, d):
        return [ret(st)] if E.set_handle(st, a[0], rep(E, st, a[1], a[2])) is not None else []

    def ctor_range(E, st, ins, a, d):
        x, y = a[1], a[2]
        # reverse iterators are passed in memory
        if "reverse_iterator" in d:
            return ctor_reverse(E, st, ins, a, d)
        out = []
        for s, q in seq_between(E, st, x, y):
            if E.set_handle(s, a[0], q) is not None:
                out.append(ret(s))
        return out

    def ctor_reverse(E, st, ins, a, d):
        b, e = [E.load(st, x, 8, "ptr")[0][1] for x in a[1:3]]
        out = []
        for s, q in seq_between(E, st, e, b):
            r = reverse_seq(E, s, q)
            if E.set_handle(s, a[0], r) is not None:
                out.append(ret(s))
        return out

    def ctor_sub(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        if q is None:
            return []
        n = E.lin_of(st, a[3]) if len(a) > 3 and a[3][0] in ("l", "t") else const((1 << 64) - 1)
        return sub_string(E, st, a[0], q, E.lin_of(st, a[2]), n)

    def sub_string(E, st, dst, q, pos, n):
        ln = E.seq_len(st, q)
        out = []
        ok, bad = E.split(st, sub(ln, pos))
        if bad is not None:
            out.append(("throw", bad, ("_ZTISt12out_of_range", None)))
        if ok is not None:
            whole, part = E.split(ok, sub(n, sub(ln, pos)))
            if whole is not None:
                if E.set_handle(whole, dst, slice_seq(E, whole, q, pos, ln)) is not None:
                    out.append(ret(whole))
            if part is not None:
                if E.set_handle(part, dst, slice_seq(E, part, q, pos, add(pos, n))) is not None:
                    out.append(ret(part))
        return out

    def substr(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        if q is None:
            return []
        n = E.lin_of(st, a[3])
        r = []
        for s, e in E.norm_u(st, 64, n):
            for s2, e2 in E.norm_u(s, 64, E.lin_of(s, a[2])):
                r += sub_string(E, s2, a[0], q, e2, e)
        return r

    def dtor(E, st, ins, a, d):
        h = E.hooks.get("handle-dtor")
        if h:
            h(E, st, a[0])
        if a[0][0] == "p" and a[0][1] in st.heap:
            o = st.heap[a[0][1]]
            if a[0][2] in o.cells and o.cells[a[0][2]][1][0] == "S":
                s = o.cells[a[0][2]][1][1]
                st.mut(a[0][1]).cells.pop(a[0][2])
                if s in st.heap:
                    st.mut(s).life = "freed"
        return [ret(st)]

    def assign(E, st, a, q):
        s = E.handle(st, a)
        if s is None:
            return []
        st.mut(s).seq = tuple(q)
        return [ret(st, a)]

    def op_assign(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        return [] if q is None else assign(E, st, a[0], q)

    def op_assign_move(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        if q is None:
            return []
        r = assign(E, st, a[0], q)
        if r and a[0] != a[1]:
            st.mut(E.handle(st, a[1])).seq = ()
        return r

    def op_assign_cstr(E, st, ins, a, d):
        return [x for s, q in cstr_seq(E, st, a[1]) for x in assign(E, s, a[0], q)]

    def append(E, st, a, q):
        s = E.handle(st, a)
        if s is None:
            return []
        o = st.mut(s)
        o.seq = o.seq + tuple(q)
        return [ret(st, a)]

    def op_push(E, st, ins, a, d):
        v = a[1]
        return append(E, st, a[0], (("b", v),))

    def op_append_str(E, st, ins, a, d):
        q = seqof(E, st, a[1])
        return [] if q is None else append(E, st, a[0], q)

    def op_append_cstr(E, st, ins, a, d):
        return [x for s, q in cstr_seq(E, st, a[1]) for x in append(E, s, a[0], q)]

    def op_append_n(E, st, ins, a, d):
        return [x for s, q in seq_between(E, st, a[1], P(a[1][1], add(a[1][2], E.lin_of(st, a[2])))) for x in append(E, s, a[0], q)]

    def op_assign_n(E, st, ins, a, d):
        return [x for s, q in seq_between(E, st, a[1], P(a[1][1], add(a[1][2], E.lin_of(st, a[2])))) for x in assign(E, s, a[0], q)]

    def op_append_fill(E, st, ins, a, d):
        return append(E, st, a[0], rep(E, st, a[1], a[2]))

    def op_append_range(E, st, ins, a, d):
        return [x for s, q in seq_between(E, st, a[1], a[2]) for x in append(E, s, a[0], q)]

    def size(E, st, ins, a, d):
        q = seqof(E, st, a[0])
        if q is None:
            return []
        return [ret(st, L(64, E.seq_len(st, q)))]

    def empty(E, st, ins, a, d):
        q = seqof(E, st, a[0])
        if q is None:
            return []
        return [ret(s, v) for s, v in E.cmp_lin(st, "eq", E.seq_len(st, q))]

    def data(E, st, ins, a, d):
        s = E.handle(st, a[0])
        return [] if s is None else [ret(st, P(s))]

    def end(E, st, ins, a, d):
        s = E.handle(st, a[0])
        return [] if s is None else [ret(st, P(s, E.seq_len(st, st.heap[s].seq)))]

    def rbeg(E, st, ins, a, d):
        s = E.handle(st, a[1])
        if s is None:
            return []
        p = P(s, E.seq_len(st, st.heap[s].seq)) if re.search(r"::c?rbegin\(", d) else P(s)
        return [ret(x) for x in E.store(st, a[0], p, 8)]

    def index(E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        out = []
        for s2, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            n = E.seq_len(s2, s2.heap[s].seq)
            E.oblige("memory", s2)
            if not E.ent(s2, sub(n, e)):
                E.report("memory", s2, "index past the end of a string")
                if not E.assume(s2, sub(n, e)):
                    continue
            out.append(ret(s2, P(s, e)))
        return out

    def at(E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        out = []
        for s2, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            n = E.seq_len(s2, s2.heap[s].seq)
            ok, bad = E.split(s2, sub(sub(n, e), ONE))
            if ok is not None:
                out.append(ret(ok, P(s, e)))
            if bad is not None:
                out.append(("throw", bad, ("_ZTISt12out_of_range", None)))
        return out

    def front_back(E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        n = E.seq_len(st, st.heap[s].seq)
        if not E.ent(st, sub(n, ONE)):
            E.report("memory", st, "first or last character of an empty string")
            if not E.assume(st, sub(n, ONE)):
                return []
        return [ret(st, P(s, sub(n, ONE) if "back" in d else ZERO))]

    def clear(E, st, ins, a, d):
        return [ret(x[1]) for x in assign(E, st, a[0], ())]

    def pop_back(E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        q = st.heap[s].seq
        n = E.seq_len(st, q)
        if not E.ent(st, sub(n, ONE)):
            E.report("memory", st, "pop_back on an empty sequence")
            return []
        st.mut(s).seq = slice_seq(E, st, q, ZERO, sub(n, ONE))
        return [ret(st)]

    def resize(E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        out = []
        ch = a[2] if len(a) > 2 and a[2][0] in ("l", "t") else C(8, 0)
        for s2, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            q = s2.heap[s].seq
            n = E.seq_len(s2, q)
            grow, shrink = E.split(s2, sub(e, n))
            if grow is not None:
                grow.mut(s).seq = q + rep(E, grow, L(64, sub(e, n)), ch)
                out.append(ret(grow))
            if shrink is not None:
                shrink.mut(s).seq = slice_seq(E, shrink, q, ZERO, e)
                out.append(ret(shrink))
        return out

    def insert_n(E, st, ins, a, d):
        # insert(pos, count, ch)
        s = E.handle(st, a[0])
        if s is None:
            return []
        q = st.heap[s].seq
        p = E.lin_of(st, a[1])
        out = []
        ok, bad = E.split(st, sub(E.seq_len(st, q), p))
        if bad is not None:
            out.append(("throw", bad, ("_ZTISt12out_of_range", None)))
        if ok is not None:
            n = E.seq_len(ok, q)
            ok.mut(s).seq = slice_seq(E, ok, q, ZERO, p) + rep(E, ok, a[2], a[3]) + slice_seq(E, ok, q, p, n)
            out.append(ret(ok, a[0]))
        return out

    def op_assign_range(E, st, ins, a, d):
        return [x for s, q in seq_between(E, st, a[1], a[2]) for x in assign(E, s, a[0], q)]

    def op_assign_fill(E, st, ins, a, d):
        return [x for s, e in E.norm_u(st, 64, E.lin_of(st, a[1])) for x in assign(E, s, a[0], rep(E, s, L(64, e), a[2]))]

    def splice(E, st, a, p, m, q, r):
        """replaces m elements at p by q; r is the returned value"""
        s = E.handle(st, a)
        if s is None:
            return []
        old = st.heap[s].seq
        n = E.seq_len(st, old)
        if not (E.ent(st, p) and E.ent(st, m) and E.ent(st, sub(n, add(p, m)))):
            raise Undecided("position in a changed string is not known to lie in it")
        st.mut(s).seq = slice_seq(E, st, old, ZERO, p) + tuple(q) + slice_seq(E, st, old, add(p, m), n)
        return [ret(st, r(s) if callable(r) else r)]

    def checked_pos(E, st, a, pos):
        """[(state, pos or None when it is outside)]"""
        out = []
        for s0, p in E.norm_u(st, 64, E.lin_of(st, pos)):
            q = seqof(E, s0, a)
            if q is None:
                continue
            ok, bad = E.split(s0, sub(E.seq_len(s0, q), p))
            if bad is not None:
                out.append((bad, None))
            if ok is not None:
                out.append((ok, p))
        return out

    def clipped(E, st, a, p, n):
        out = []
        for s, e in E.norm_u(st, 64, E.lin_of(st, n)):
            left = sub(E.seq_len(s, seqof(E, s, a)), p)
            whole, part = E.split(s, sub(e, left))
            if whole is not None:
                out.append((whole, left))
            if part is not None:
                out.append((part, e))
        return out

    def erase_pos(E, st, ins, a, d):
        out = []
        for s, p in checked_pos(E, st, a[0], a[1] if len(a) > 1 else C(64, 0)):
            if p is None:
                out.append(("throw", s, ("_ZTISt12out_of_range", None)))
                continue
            for s2, m in clipped(E, s, a[0], p, a[2] if len(a) > 2 else C(64, (1 << 64) - 1)):
                out += splice(E, s2, a[0], p, m, (), a[0])
        return out

    def insert_str(E, st, ins, a, d):
        out = []
        for s, p in checked_pos(E, st, a[0], a[1]):
            if p is None:
                out.append(("throw", s, ("_ZTISt12out_of_range", None)))
                continue
            for s2, q in ([(s, seqof(E, s, a[2]))] if "std::string const&" in d else cstr_seq(E, s, a[2])):
                if q is not None:
                    out += splice(E, s2, a[0], p, ZERO, q, a[0])
        return out

    def replace_str(E, st, ins, a, d):
        out = []
        for s, p in checked_pos(E, st, a[0], a[1]):
            if p is None:
                out.append(("throw", s, ("_ZTISt12out_of_range", None)))
                continue
            for s2, m in clipped(E, s, a[0], p, a[2]):
                for s3, q in ([(s2, seqof(E, s2, a[3]))] if "std::string const&" in d else cstr_seq(E, s2, a[3])):
                    if q is not None:
                        out += splice(E, s3, a[0], p, m, q, a[0])
        return out

    def at_iter(E, st, v, a):
        s = E.handle(st, a)
        if s is None:
            return None
        if v[0] != "p" or v[1] != s:
            raise Undecided("an iterator that does not belong to the string")
        return v[2]

    def insert_iter(E, st, ins, a, d):
        # insert(iterator, first, last)
        p = at_iter(E, st, a[1], a[0])
        if p is None:
            return []
        return [x for s, q in seq_between(E, st, a[2], a[3]) for x in splice(E, s, a[0], p, ZERO, q, lambda o: P(o, p))]

    def insert_char(E, st, ins, a, d):
        p = at_iter(E, st, a[1], a[0])
        if p is None:
            return []
        out = []
        for s, v in ([(st, a[2])] if a[2][0] != "p" else E.load(st, a[2], 1, "i8")):
            out += splice(E, s, a[0], p, ZERO, (("b", v),), lambda o: P(o, p))
        return out

    def erase_iter(E, st, ins, a, d):
        p = at_iter(E, st, a[1], a[0])
        if p is None:
            return []
        e = add(p, ONE) if len(a) < 3 else at_iter(E, st, a[2], a[0])
        return splice(E, st, a[0], p, sub(e, p), (), lambda o: P(o, p))

    def plus(E, st, ins, a, d):
        sa = [(st, None)]
        m = re.search(r"operator\+<char>\((.*)\)$", d)
        parts = m.group(1).split(", ") if m else ["std::string const&", "std::string const&"]
        acc = [(st, ())]
        for i, ty in enumerate(parts):
            nx = []
            for s, q in acc:
                v = a[1 + i]
                if ty.startswith("char const*"):
                    nx += [(s2, q + x) for s2, x in cstr_seq(E, s, v)]
                elif ty == "char":
                    nx.append((s, q + (("b", v),)))
                else:
                    x = seqof(E, s, v)
                    if x is not None:
                        nx.append((s, q + x))
            acc = nx
        return [ret(s) for s, q in acc if E.set_handle(s, a[0], q) is not None]

    def eq(E, st, ins, a, d):
        m = re.search(r"operator[!=]=<char>\((.*)\)$", d)
        parts = m.group(1).split(", ")
        acc = [(st, ())]
        for i, ty in enumerate(parts):
            nx = []
            for s, q in acc:
                if ty.startswith("char const*"):
                    nx += [(s2, q + (x,)) for s2, x in cstr_seq(E, s, a[i])]
                else:
                    x = seqof(E, s, a[i])
                    if x is not None:
                        nx.append((s, q + (x,)))
            acc = nx
        ne = "operator!=" in d
        return [ret(s2, BTRUE if r != ne else BFALSE) for s, q in acc for s2, r in fork_eq(E, s, q[0], q[1])]

    def compare(E, st, ins, a, d):
        qa = seqof(E, st, a[0])
        out = []
        if "compare(char const*)" in d:
            rs = cstr_seq(E, st, a[1])
        elif "compare(std::string const&)" in d:
            rs = [(st, seqof(E, st, a[1]))]
        else:
            return compare_part(E, st, ins, a, d)
        for s, qb in rs:
            for s2, r in fork_eq(E, s, qa, qb):
                if r:
                    out.append(ret(s2, C(32, 0)))
                else:
                    v = fresh("cmp")
                    out.append(ret(s2, nonzero32(E, s2)))
        return [x for y in out for x in (y if isinstance(y, list) else [y])]

    def compare_part(E, st, ins, a, d):
        q = seqof(E, st, a[0])
        out = []
        pos, n = E.lin_of(st, a[1]), E.lin_of(st, a[2])
        rs = cstr_seq(E, st, a[3]) if "char const*" in d else [(st, seqof(E, st, a[3]))]
        for s0, qb in rs:
            ln = E.seq_len(s0, q)
            ok, bad = E.split(s0, sub(ln, pos))
            if bad is not None:
                out.append(("throw", bad, ("_ZTISt12out_of_range", None)))
            if ok is None:
                continue
            whole, part = E.split(ok, sub(n, sub(ln, pos)))
            for s, e in ((whole, ln), (part, add(pos, n))):
                if s is None:
                    continue
                for s2, r in fork_eq(E, s, slice_seq(E, s, q, pos, e), qb):
                    out.append(ret(s2, C(32, 0)) if r else ret(s2, nonzero32(E, s2)))
        return out

    def nonzero32(E, st):
        v = E.newfin(st, {1, 0xffffffff}, "nz")
        return ("t", 32, ("s", v, 32))

    def find_not_of(E, st, ins, a, d):
        q = seqof(E, st, a[0])
        n = E.seq_len(st, q)
        out = []
        for s, cs in cstr_seq(E, st, a[1]):
            setb = frozenset(cval(c[1]) for c in cs if isconst(c[1]))
            h = E.hooks.get("find_not_of")
            if h:
                r = h(E, s, q, setb, a, d)
                if r is not None:
                    out += r
                    continue
            s2 = s.copy()
            s.lossy("contents after find_first_not_of")
            s2.lossy("contents after find_first_not_of")
            out.append(ret(s2, C(64, (1 << 64) - 1)))
            k = freshlen(E, s)
            if E.assume(s, sub(sub(n, k), ONE)):
                out.append(ret(s, L(64, k)))
        return out

    def swap(E, st, ins, a, d):
        x, y = E.handle(st, a[0]), E.handle(st, a[1])
        if x is None or y is None:
            return []
        p, q = st.mut(x), st.mut(y)
        p.seq, q.seq = q.seq, p.seq
        return [ret(st)]

    noop = lambda E, st, ins, a, d: [ret(st, a[0] if ins.get("t") == "ptr" and a else None)]

    # std::string
    M(S + r"basic_string\(\)$", ctor_default)
    M(S + r"basic_string\(std::allocator<char> const&\)$", ctor_default)
    M(S + r"basic_string\(std::string const&\)$", ctor_copy)
    M(S + r"basic_string\(std::string const&, unsigned long(, unsigned long)?\)$", ctor_sub)
    M(S + r"basic_string\(std::string&&\)$", ctor_move)
    M(S + r"basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$", ctor_cstr)
    M(S + r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$", ctor_ptr_n)
    M(S + r"basic_string(<[^(]*>)?\(unsigned long, char, std::allocator<char> const&\)$", ctor_fill)
    M(S + r"basic_string<.*, void>\(.*, std::allocator<char> const&\)$", ctor_range)
    M(S + r"~basic_string\(\)$", dtor)
    M(S + r"operator=\(std::string const&\)$", op_assign)
    M(S + r"assign\(std::string const&\)$", op_assign)
    M(S + r"operator=\(std::string&&\)$", op_assign_move)
    M(S + r"assign\(std::string&&\)$", op_assign_move)
    M(S + r"(operator=|assign)\(char const\*\)$", op_assign_cstr)
    M(S + r"assign\(char const\*, unsigned long\)$", op_assign_n)
    M(r"^std::string& std::string::assign<.*>\(", op_assign_range)
    M(S + r"assign\(unsigned long, char\)$", op_assign_fill)
    M(S + r"erase\(unsigned long, unsigned long\)$", erase_pos)
    M(S + r"insert\(unsigned long, (std::string const&|char const\*)\)$", insert_str)
    M(S + r"replace\(unsigned long, unsigned long, (std::string const&|char const\*)\)$", replace_str)
    M(r"std::string::insert<.*>\(__gnu_cxx::__normal_iterator<char const\*, std::string>, ", insert_iter)
    M(S + r"insert\(__gnu_cxx::__normal_iterator<char const\*, std::string>, char\)$", insert_char)
    M(S + r"erase\(__gnu_cxx::__normal_iterator<char const\*, std::string>", erase_iter)
    M(S + r"(push_back|operator\+=)\(char\)$", op_push)
    M(S + r"(append|operator\+=)\(std::string const&\)$", op_append_str)
    M(S + r"(append|operator\+=)\(char const\*\)$", op_append_cstr)
    M(S + r"append\(char const\*, unsigned long\)$", op_append_n)
    M(S + r"append\(unsigned long, char\)$", op_append_fill)
    M(r"std::string& std::string::append<.*>\(", op_append_range)
    M(S + r"(size|length)\(\) const$", size)
    M(S + r"empty\(\) const$", empty)
    M(S + r"(data|c_str|begin|cbegin)\(\)( const)?$", data)
    M(S + r"c?end\(\)( const)?$", end)
    M(S + r"c?r(begin|end)\(\)( const)?$", rbeg)
    M(S + r"operator\[\]\(unsigned long\)( const)?$", index)
    M(S + r"at\(unsigned long\)( const)?$", at)
    M(S + r"(front|back)\(\)( const)?$", front_back)
    M(S + r"clear\(\)$", clear)
    M(S + r"pop_back\(\)$", pop_back)
    M(S + r"resize\(unsigned long(, char)?\)$", resize)
    M(S + r"(reserve|shrink_to_fit)\(.*\)$", lambda E, st, ins, a, d: [ret(st)])
    M(S + r"capacity\(\) const$", size)
    M(S + r"substr\(unsigned long, unsigned long\) const$", substr)
    M(S + r"insert\(unsigned long, unsigned long, char\)$", insert_n)
    M(S + r"compare\(.*\) const$", compare)
    M(S + r"find_first_not_of\(char const\*, unsigned long\) const$", find_not_of)
    M(S + r"swap\(std::string&\)$", swap)
    M(r"std::string std::operator\+<char>\(", plus)
    M(r"bool std::operator[!=]=<char>\(std::string const&, (char const\*|std::string const&)\)$", eq)
    M(r"bool std::operator[!=]=<char>\(char const\*, std::string const&\)$", eq)

    # std::vector<char>, std::vector<unsigned char>
    V = r"std::vector<(unsigned )?char>::"

    def v_set(E, st, a, q):
        return [ret(st)] if E.set_handle(st, a, q, size=24, nul=False, tag="byte vector") is not None else []

    def v_ctor(E, st, ins, a, d):
        return v_set(E, st, a[0], ())

    def v_copy(E, st, ins, a, d):
        q = seqof(E, st, a[1], "byte vector")
        return [] if q is None else v_set(E, st, a[0], q)

    def v_move(E, st, ins, a, d):
        q = seqof(E, st, a[1], "byte vector")
        if q is None:
            return []
        r = v_set(E, st, a[0], q)
        st.mut(E.handle(st, a[1])).seq = ()
        return r

    def v_fill(E, st, ins, a, d):
        ch = C(8, 0)
        if "const&, std::allocator" in d:
            r = E.load(st, a[2], 1, "i8")
            if len(r) != 1:
                return None
            st, ch = r[0]
        out = []
        for s, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            out += v_set(E, s, a[0], rep(E, s, L(64, e), ch))
        return out

    def v_range(E, st, ins, a, d):
        return [x for s, q in seq_between(E, st, a[1], a[2]) for x in v_set(E, s, a[0], q)]

    def v_push(E, st, ins, a, d):
        out = []
        for s, v in E.load(st, a[1], 1, "i8"):
            out += [ret(x[1]) for x in append(E, s, a[0], (("b", v),))]
        return out

    def v_index(E, st, ins, a, d):
        s = E.handle(st, a[0], "byte vector")
        if s is None:
            return []
        out = []
        for s2, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            out.append(ret(s2, P(s, e)))
        return out
    M(r"std::vector<(unsigned )?char>::insert<.*>\(__gnu_cxx::__normal_iterator<(unsigned )?char const\*, std::vector<(unsigned )?char>>, ", insert_iter)
    M(V + r"insert\(__gnu_cxx::__normal_iterator<[^,]*, std::vector<(unsigned )?char>>, (unsigned )?char (const&|&&)\)$", insert_char)
    M(V + r"erase\(__gnu_cxx::__normal_iterator<", erase_iter)
    M(r"void std::vector<(unsigned )?char>::assign<.*>\(", lambda E, st, ins, a, d: [ret(x[1]) for x in op_assign_range(E, st, ins, a, d)])
    M(V + r"vector\(\)$", v_ctor)
    M(V + r"vector\(std::allocator<(unsigned )?char> const&\)$", v_ctor)
    M(V + r"vector\(std::vector<(unsigned )?char> const&\)$", v_copy)
    M(V + r"vector\(std::vector<(unsigned )?char>&&\)$", v_move)
    M(V + r"vector\(unsigned long, (.* const&, )?std::allocator<(unsigned )?char> const&\)$", v_fill)
    M(V + r"vector<.*void>\(", v_range)
    M(V + r"~vector\(\)$", dtor)
    M(V + r"push_back\(", v_push)
    M(V + r"emplace_back<", v_push)
    M(V + r"operator=\(std::vector<(unsigned )?char> const&\)$", op_assign)
    M(V + r"operator=\(std::vector<(unsigned )?char>&&\)$", op_assign_move)
    M(V + r"(size|capacity)\(\) const$", size)
    M(V + r"empty\(\) const$", empty)
    M(V + r"(data|begin|cbegin)\(\)( const)?$", data)
    M(V + r"c?end\(\)( const)?$", end)
    M(V + r"operator\[\]\(unsigned long\)( const)?$", v_index)
    M(V + r"at\(unsigned long\)( const)?$", at)
    M(V + r"(front|back)\(\)( const)?$", front_back)
    M(V + r"clear\(\)$", clear)
    M(V + r"pop_back\(\)$", pop_back)
    M(V + r"resize\(unsigned long\)$", resize)
    M(V + r"reserve\(.*\)$", lambda E, st, ins, a, d: [ret(st)])
    M(r"^std::allocator<(unsigned )?char>::(allocator|~allocator)\(", lambda E, st, ins, a, d: [ret(st)])
    M(r"^std::__new_allocator<(unsigned )?char>::(__new_allocator|~__new_allocator)\(", lambda E, st, ins, a, d: [ret(st)])

    # ------------------------------------------------------------- C library
    def new(E, st, ins, a, d):
        out = []
        for s, e in E.norm_u(st, 64, E.lin_of(st, a[0])):
            oid = s.new(Obj("heap", e, "undef", tag="heap memory", attr={"by": "new[]" if "[]" in d else "new"}))
            h = E.hooks.get("alloc")
            if h:
                h(E, s, oid, d)
            out.append(ret(s, P(oid)))
        return out

    def malloc(E, st, ins, a, d):
        if d == "calloc":
            r = E.bin(st, "mul", 64, a[0], a[1])
            st, v = r[0]
            n = E.lin_of(st, v)
        elif d in ("aligned_alloc", "memalign"):
            n = E.lin_of(st, a[1])
        else:
            n = E.lin_of(st, a[0])
        out = []
        for s, e in E.norm_u(st, 64, n):
            oid = s.new(Obj("heap", e, "zero" if d == "calloc" else "undef", tag="heap memory", attr={"by": "malloc"}))
            h = E.hooks.get("alloc")
            if h:
                h(E, s, oid, d)
            if E.hooks.get("malloc-null"):
                s2 = s.copy()
                s2.heap.pop(oid)
                s2.note("%s returns null" % d)
                out.append(ret(s2, NULL))
            out.append(ret(s, P(oid)))
        return out

    def release(E, st, ins, a, d):
        v = a[0]
        if v[0] == "p" and v[1] == NULLOID and v[2] == ZERO:
            return [ret(st)]
        if v[0] != "p":
            if v[0] == "u":
                E.report("uninit", st, "release of an uninitialised pointer")
                return []
            raise Undecided("release of an unknown pointer")
        E.oblige("memory", st)
        o = E.obj(st, v[1])
        if o is None or o.life != "live":
            E.report("memory", st, "memory released twice")
            return []
        if v[2] != ZERO:
            E.report("memory", st, "release of a pointer into the middle of an object")
            return []
        if o.kind in ("stack", "global", "seq"):
            E.report("memory", st, "release of memory that was not allocated (%s)" % o.tag)
            return []
        by = o.attr.get("by")
        want = "malloc" if d == "free" else "new[]" if "[]" in d else "new"
        if by and by != want:
            E.report("memory", st, "memory obtained by %s released by %s" % (by, "free" if d == "free" else d))
            return []
        h = E.hooks.get("free")
        if h:
            h(E, st, v[1], d)
        st.mut(v[1]).life = "freed"
        return [ret(st)]
    M(r"^operator new(\[\])?\(unsigned long(, std::(nothrow_t|align_val_t).*)?\)$", new)
    M(r"^operator delete(\[\])?\(void\*(, .*)?\)$", release)
    M(r"^(malloc|calloc|aligned_alloc|memalign)$", malloc)
    M(r"^free$", release)

    def realloc(E, st, ins, a, d):
        v = a[0]
        out = []
        for s, e in E.norm_u(st, 64, E.lin_of(st, a[1])):
            oid = s.new(Obj("heap", e, "undef", tag="heap memory", attr={"by": "malloc"}))
            if v[0] == "p" and v[1] != NULLOID:
                o = s.heap[v[1]]
                if o.life != "live":
                    E.report("memory", s, "memory used after it was released")
                    continue
                n = s.mut(oid)
                n.cells = dict(o.cells)
                n.init = o.init if o.init != "zero" else "unk"
                for k in o.attr:
                    if k not in ("by",):
                        n.attr[k] = o.attr[k]
                h = E.hooks.get("realloc")
                if h:
                    h(E, s, v[1], oid)
                s.mut(v[1]).life = "freed"
            out.append(ret(s, P(oid)))
        return out
    M(r"^realloc$", realloc)

    def strlen(E, st, ins, a, d):
        return [ret(s, L(64, E.seq_len(s, q))) for s, q in cstr_seq(E, st, a[0])]

    def strnlen(E, st, ins, a, d):
        n = E.lin_of(st, a[1])
        k = freshlen(E, st, "len")
        E.assume(st, sub(n, k))
        if a[0][0] == "p":
            o = E.deref(st, a[0], 1, "read")
            if o is None:
                return []
            sz = E.obj_size(st, o)
            if sz is not None and E.bounds(st, o, a[0][2], n, "bounded string scan") is None:
                return []
        return [ret(st, L(64, k))]

    def strdup(E, st, ins, a, d):
        out = []
        for s, q in cstr_seq(E, st, a[0]):
            n = E.seq_len(s, q)
            oid = s.new(Obj("heap", add(n, ONE), "unk", tag="heap copy of a string",
                            attr={"by": "malloc", "cstrseq": ("@seq", q)}))
            h = E.hooks.get("alloc")
            if h:
                h(E, s, oid, d)
            out.append(ret(s, P(oid)))
        return out
    M(r"^strlen$", strlen)
    M(r"^strnlen$", strnlen)
    M(r"^(strdup|__strdup)$", strdup)

    def strcmp(E, st, ins, a, d):
        out = []
        for s, q in cstr_seq(E, st, a[0]):
            for s2, r in cstr_seq(E, s, a[1]):
                for s3, e in fork_eq(E, s2, q, r):
                    out.append(ret(s3, C(32, 0) if e else nonzero32(E, s3)))
        return out
    M(r"^strcmp$", strcmp)

    def strncmp(E, st, ins, a, d):
        n = E.lin_of(st, a[2])
        if n[1]:
            return None
        out = []
        # compare byte by byte up to n or the terminator
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == n[0]:
                out.append(ret(s, C(32, 0)))
                continue
            for s1, x in byte_at(E, s, a[0], i):
                for s2, y in byte_at(E, s1, a[1], i):
                    for s3, c in E.cmp(s2, "eq", 8, x, y):
                        for s4, t in E.truth(s3, c):
                            if not t:
                                out.append(ret(s4, nonzero32(E, s4)))
                                continue
                            for s5, z in E.cmp(s4, "eq", 8, E.simp(s4, y), C(8, 0)):
                                for s6, t2 in E.truth(s5, z):
                                    if t2:
                                        out.append(ret(s6, C(32, 0)))
                                    else:
                                        todo.append((s6, i + 1))
        return out

    def byte_at(E, st, p, i):
        return E.load(st, P(p[1], add(p[2], const(i))), 1, "i8")
    M(r"^strncmp$", strncmp)

    def memcmp(E, st, ins, a, d):
        n = E.lin_of(st, a[2])
        out = []
        for s, q in seq_between(E, st, a[0], P(a[0][1], add(a[0][2], n))):
            for s2, r in seq_between(E, s, a[1], P(a[1][1], add(a[1][2], n))):
                for s3, e in eq_bytes(E, s2, q, r) if q != r else [(s2, True)]:
                    out.append(ret(s3, C(32, 0) if e else nonzero32(E, s3)))
        return out
    M(r"^(memcmp|bcmp)$", memcmp)

    def memcpy(E, st, ins, a, d):
        s = E.copy_bytes(st, a[0], a[1], E.lin_of(st, a[2]))
        return [] if s is None else [ret(s, a[0])]
    M(r"^(memcpy|memmove)$", memcpy)

    def memset(E, st, ins, a, d):
        s = E.fill_bytes(st, a[0], E.trunc(st, a[1], 8), E.lin_of(st, a[2]))
        return [] if s is None else [ret(s, a[0])]
    M(r"^memset$", memset)

    def ctype(name, f):
        FNS[name] = f

        def m(E, st, ins, a, d):
            v = a[0]
            x = E.expr_of(v)
            if x is None:
                st.lossy("character of unknown contents")
                return [ret(st, E.unknown(st, "i32"))]
            # defined for EOF and unsigned char values only
            bad = [r for r in E.term_values(st, x) if r > 255 and r != 0xffffffff]
            if bad:
                E.report("uninit", st, "%s called with a negative character" % d)
            return [ret(st, E.mkterm(st, 32, ("fn", name, x)))]
        M(r"^%s$" % name, m)
    H = frozenset(b"0123456789abcdefABCDEF")
    ctype("isxdigit", lambda c: int(c in H))
    ctype("isdigit", lambda c: int(48 <= c <= 57))
    ctype("isspace", lambda c: int(c in b" \t\n\v\f\r"))
    ctype("isalpha", lambda c: int(65 <= c <= 90 or 97 <= c <= 122))
    ctype("isalnum", lambda c: int(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122))
    ctype("isupper", lambda c: int(65 <= c <= 90))
    ctype("islower", lambda c: int(97 <= c <= 122))
    ctype("iscntrl", lambda c: int(c < 32 or c == 127))
    ctype("isprint", lambda c: int(32 <= c < 127))
    ctype("tolower", lambda c: c + 32 if 65 <= c <= 90 else c)
    ctype("toupper", lambda c: c - 32 if 97 <= c <= 122 else c)

    def sscanf(E, st, ins, a, d):
        fmt = cstr_bytes(E, st, a[1])
        if fmt not in (b"%X", b"%x"):
            raise Undecided("sscanf format")
        out = []
        for s, q in cstr_seq(E, st, a[0]):
            if not all(c[0] == "b" for c in q) or len(q) > 4:
                raise Undecided("sscanf of a long text")
            todo = [(s, 0, ("k", 0))]
            while todo:
                s1, i, acc = todo.pop()
                if i == len(q):
                    if i == 0:
                        out.append(ret(s1, C(32, 0xffffffff)))
                        continue
                    for s2 in E.store(s1, a[2], E.mkterm(s1, 32, acc), 4):
                        out.append(ret(s2, C(32, 1)))
                    continue
                x = E.expr_of(q[i][1])
                if x is None:
                    raise Undecided("sscanf of an unknown text")
                for isx, s2 in E.split_term(s1, x, lambda r: r in H):
                    if isx:
                        todo.append((s2, i + 1, ("bin", "or", 32, ("bin", "shl", 32, acc, ("k", 4)), ("fn", "hexval", x))))
                    elif i == 0:
                        for odd, s3 in E.split_term(s2, x, lambda r: r in b" \t\n\v\f\r+-"):
                            if odd:
                                s3.lossy("sscanf of text that may start with blanks or a sign")
                            out.append(ret(s3, C(32, 0)))
                    else:
                        for s3 in E.store(s2, a[2], E.mkterm(s2, 32, acc), 4):
                            out.append(ret(s3, C(32, 1)))
        return out
    FNS["hexval"] = lambda c: int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else 0
    M(r"^(__isoc(23|99)_)?sscanf$", sscanf)

    def strtol(E, st, ins, a, d):
        base = a[2]
        if not (isconst(base) and cval(base) == 16) or not (a[1][0] == "p" and a[1][1] == NULLOID):
            return None
        out = []
        w = 64
        for s, q in cstr_seq(E, st, a[0]):
            if not all(c[0] == "b" for c in q) or len(q) > 4:
                raise Undecided("strtol of a long text")
            todo = [(s, 0, ("k", 0))]
            while todo:
                s1, i, acc = todo.pop()
                if i == len(q):
                    out.append(ret(s1, E.mkterm(s1, w, acc)))
                    continue
                x = E.expr_of(q[i][1])
                if x is None:
                    raise Undecided("strtol of an unknown text")
                for isx, s2 in E.split_term(s1, x, lambda r: r in H):
                    if isx:
                        todo.append((s2, i + 1, ("bin", "or", w, ("bin", "shl", w, acc, ("k", 4)), ("fn", "hexval", x))))
                    else:
                        if i == 0:
                            s2.lossy("number conversion of text that does not start with a digit")
                        out.append(ret(s2, E.mkterm(s2, w, acc)))
        return out
    M(r"^(__isoc23_)?strto(u?l|u?ll)$", strtol)
    M(r"^(puts|printf|fprintf|fputs|perror|fflush|putchar|fputc)$",
      lambda E, st, ins, a, d: [ret(st, E.unknown(st, "i32"))])

    # ------------------------------------------------------------- exceptions
    def alloc_exc(E, st, ins, a, d):
        oid = st.new(Obj("exception", E.lin_of(st, a[0]), "undef", tag="exception object"))
        return [ret(st, P(oid))]

    def cxa_throw(E, st, ins, a, d):
        o = ins["a"][1]
        ti = o[1] if o[0] == "g" else None
        st.note("throw %s at %s" % (ti, E.where(st)))
        h = E.hooks.get("throw")
        if h:
            h(E, st, ti, a[0])
        return [("throw", st, (ti, a[0][1]))]

    def begin_catch(E, st, ins, a, d):
        return [ret(st, a[0])]

    def rethrow(E, st, ins, a, d):
        ti, oid = st.exc[0], st.exc[1]
        return [("throw", st, (ti, oid))]

    def terminate(E, st, ins, a, d):
        h = E.hooks.get("terminate")
        if h:
            h(E, st, d)
        else:
            E.report("terminate", st, "the process is ended by %s" % d)
        return []
    M(r"^__cxa_allocate_exception$", alloc_exc)
    M(r"^__cxa_free_exception$", lambda E, st, ins, a, d: [ret(st)])
    M(r"^__cxa_throw$", cxa_throw)
    M(r"^__cxa_begin_catch$", begin_catch)
    M(r"^__cxa_get_exception_ptr$", begin_catch)
    M(r"^__cxa_end_catch$", lambda E, st, ins, a, d: [ret(st)])
    M(r"^__cxa_rethrow$", rethrow)
    M(r"^(__clang_call_terminate|std::terminate\(\)|abort|__cxa_call_unexpected|__cxa_pure_virtual)$", terminate)
    M(r"^(exit|_exit|quick_exit)$", lambda E, st, ins, a, d: [("exit", st, a[0])])
    M(r"^__cxa_atexit$", lambda E, st, ins, a, d: [ret(st, C(32, 0))])

    def stdexc(E, st, ins, a, d):
        o = E.deref(st, a[0], 16, "construction of an exception")
        if o is None:
            return []
        if "string const&" in d:
            q = seqof(E, st, a[1])
            rs = [(st, q)] if q is not None else []
        elif "char const*" in d:
            rs = cstr_seq(E, st, a[1])
        else:
            rs = [(st, ())]
        for s, q in rs:
            m = s.mut(a[0][1])
            m.attr["what@" + repr(a[0][2])] = ("@seq", q)
            m.init = "unk"
        return [ret(s) for s, q in rs]
    M(r"^std::(logic_error|runtime_error|length_error|out_of_range|invalid_argument|domain_error|range_error|overflow_error|exception|bad_alloc)::(logic_error|runtime_error|length_error|out_of_range|invalid_argument|domain_error|range_error|overflow_error|exception|bad_alloc)\(", stdexc)
    M(r"^std::(logic_error|runtime_error|length_error|out_of_range|invalid_argument|domain_error|range_error|overflow_error|exception|bad_alloc)::~", lambda E, st, ins, a, d: [ret(st)])
    for n, ti in (("length_error", "_ZTISt12length_error"), ("out_of_range", "_ZTISt12out_of_range"),
                  ("logic_error", "_ZTISt11logic_error"), ("invalid_argument", "_ZTISt16invalid_argument"),
                  ("bad_alloc", "_ZTISt9bad_alloc"), ("out_of_range_fmt", "_ZTISt12out_of_range"),
                  ("bad_array_new_length", "_ZTISt9bad_alloc")):
        M(r"^std::__throw_%s\(" % n, lambda E, st, ins, a, d, ti=ti: [("throw", st, (ti, None))])

    # ------------------------------------------------------------- streams
    # an output stream that is only written to for diagnostics
    def os_out(E, st, ins, a, d):
        h = E.hooks.get("ostream")
        if h:
            r = h(E, st, ins, a, d)
            if r is not None:
                return r
        return [ret(st, a[0])]
    M(r"std::operator<<<.*>\(std::ostream&", os_out)
    M(r"^std::ostream::operator<<\(", os_out)
    M(r"^std::ostream::(put|write|flush)\(", os_out)

    def sf(E, st, ins, a, d):
        return [ret(st, C(32, 1))]
    M(r"^std::(ios_base::Init|locale)::", lambda E, st, ins, a, d: [ret(st)])


def reverse_seq(E, st, q):
    if all(c[0] == "b" for c in q):
        return tuple(reversed(q))
    return tuple((("rev", c[1], c[2], c[3])) if c[0] == "T" else c for c in reversed(q)) if False else \
        (("G", ("rev", q), E.seq_len(st, q)),)
