"""Models of output streams with contents, and of sprintf."""
import re
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import models
from models import ret, seqof, cstr_seq, anyseq, freshlen, const_seq

DEFFMT = 0 | (32 << 24)   # decimal, fill ' ', width 0


def fmt_text(code, v):
    """text of integer v under a format code: base | upper<<2 | left<<3 | width<<8 | fill<<24; base 0 dec 1 hex 2 oct"""
    base, upper, left = code & 3, code >> 2 & 1, code >> 3 & 1
    width, fill = code >> 8 & 0xffff, chr(code >> 24 & 0xff)
    s = {0: "%d", 1: "%x", 2: "%o"}[base] % v
    if upper:
        s = s.upper()
    if len(s) < width:
        if fill == "0" and code >> 32 & 1:      # printf's zero flag goes after the sign
            neg = s.startswith("-")
            s = ("-" if neg else "") + s[neg:].rjust(width - neg, "0")
        else:
            s = s.ljust(width, fill) if left else s.rjust(width, fill)
    return s


def as_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def fmt_fn(code, w, signed, i):
    name = "fmt:%x:%d:%d:%d" % (code, w, signed, i)
    if name not in FNS:
        def f(v, code=code, w=w, signed=signed, i=i):
            base = code & 3
            v &= (1 << w) - 1
            if signed and base == 0:
                v = as_signed(v, w)
            t = fmt_text(code, v)
            return ord(t[i]) if i < len(t) else 0
        FNS[name] = f
    return name


def int_chunks(E, st, v, w, signed, code):
    """[(state, chunks)] of the text an integer is written as"""
    v = E.simp(st, v)
    base = code & 3

    def val(r):
        r &= (1 << w) - 1
        return as_signed(r, w) if signed and base == 0 else r
    if isconst(v):
        return [(st, const_seq(fmt_text(code, val(cval(v))).encode()))]
    if v[0] == "u":
        E.report("uninit", st, "uninitialised value is printed")
        return []
    if v[0] == "t":
        x = v[2]
        try:
            out = []
            for n, s in E.split_term(st, x, lambda r: len(fmt_text(code, val(r)))):
                if n > 40:
                    raise Undecided("wide field")
                out.append((s, tuple(("b", E.mkterm(s, 8, ("fn", fmt_fn(code, w, signed, i), x))) for i in range(n))))
            return out
        except Undecided:
            pass
    e = E.lin_of(st, v) if v[0] in ("l", "t") else None
    k = freshlen(E, st, "digits", const(400))
    E.assume(st, sub(k, ONE))
    return [(st, (("G", ("int", code, w, signed, repr(e) if e is not None else fresh("any")), k),))]


def install(E):
    M = E.model

    def stream(E, st, p):
        """(state object id, seq id) of the stream at p, or None when its contents do not matter"""
        if p[0] != "p" or p[1] not in st.heap:
            return None
        o = st.heap[p[1]]
        for off in (p[2], add(p[2], const(-16))):
            c = o.cells.get(off)
            if c is not None and c[1][0] == "S" and st.heap[c[1][1]].tag == "stream":
                return (p[1], off, c[1][1])
        return None

    E.models_stream = stream

    def get_fmt(st, k):
        c = st.heap[k[0]].cells.get(add(k[1], const(8)))
        return cval(c[1]) if c is not None and isconst(c[1]) else DEFFMT

    def set_fmt(st, k, code):
        st.mut(k[0]).cells[add(k[1], const(8))] = (8, C(64, code))

    def emit(E, st, k, q):
        q = tuple(q)
        o = st.mut(k[2])
        o.seq = o.seq + q
        h = E.hooks.get("emitted")
        if h:
            r = h(E, st, k[2], q)
            if r is not None:
                return r
        return [st]

    def padded(E, st, k, q):
        code = get_fmt(st, k)
        w = code >> 8 & 0xffff
        if not w:
            return [(st, q)]
        set_fmt(st, k, code & ~(0xffff << 8))
        n = E.seq_len(st, q)
        fill = ("b", C(8, code >> 24 & 0xff))
        if n[1]:
            st.lossy("padding of a text of unknown length")
            return [(st, anyseq(E, st))]
        m = max(0, w - n[0])
        return [(st, q + (fill,) * m if code >> 3 & 1 else (fill,) * m + q)]

    def ctor(E, st, ins, a, d):
        o = E.deref(st, a[0], 16, "construction of a stream")
        if o is None:
            return []
        s = st.new(Obj("seq", None, tag="stream", attr={"nul": False}, seq=()))
        base = a[0][2] if "stringstream" not in d.split("(")[0].split("::")[-1] or True else a[0][2]
        o = st.mut(a[0][1])
        o.cells[base] = (8, ("S", s))
        o.cells[add(base, const(8))] = (8, C(64, DEFFMT))
        if "string const&" in d:
            q = seqof(E, st, a[1])
            if q is None:
                return []
            # without ios::ate output overwrites the start
            if q != ():
                st.lossy("stream with initial contents")
                st.mut(s).seq = anyseq(E, st)
        return [ret(st)]

    def dtor(E, st, ins, a, d):
        k = stream(E, st, a[0])
        if k:
            st.mut(k[2]).life = "freed"
        return [ret(st)]

    def str_get(E, st, ins, a, d):
        k = stream(E, st, a[1])
        if k is None:
            return None
        return [ret(st)] if E.set_handle(st, a[0], st.heap[k[2]].seq) is not None else []

    def str_set(E, st, ins, a, d):
        k = stream(E, st, a[0])
        q = seqof(E, st, a[1])
        if k is None or q is None:
            return None
        st.mut(k[2]).seq = q
        if q:
            st.lossy("stream with initial contents")
        return [ret(st)]

    def put_text(E, st, ins, a, qs):
        out = []
        for s, q in qs:
            k = stream(E, s, a[0])
            if k is None:
                out.append(ret(s, a[0])); continue
            for s2, q2 in padded(E, s, k, q):
                out += [ret(x, a[0]) for x in emit(E, s2, k, q2)]
        return out

    def os_out(E, st, ins, a, d):
        h = E.hooks.get("ostream")
        if h:
            r = h(E, st, ins, a, d)
            if r is not None:
                return r
        k = stream(E, st, a[0])
        if k is None:
            if "char const*" in d or "string const&" in d:
                # still read what is printed
                if "string const&" in d:
                    seqof(E, st, a[1])
                else:
                    return [ret(s, a[0]) for s, q in cstr_seq(E, st, a[1])]
            return [ret(st, a[0])]
        m = re.search(r"(?:operator<<|put|write|flush).*?\((.*)\)$", d)
        t = m.group(1) if m else ""
        t = t.replace("std::ostream&, ", "")
        if "_Setw" in t:
            if not isconst(a[1]):
                raise Undecided("field width not known")
            set_fmt(st, k, get_fmt(st, k) & ~(0xffff << 8) | (cval(a[1]) & 0xffff) << 8)
            return [ret(st, a[0])]
        if "_Setfill" in t:
            if not isconst(a[1]):
                raise Undecided("fill character not known")
            set_fmt(st, k, get_fmt(st, k) & ~(0xff << 24) | (cval(a[1]) & 0xff) << 24)
            return [ret(st, a[0])]
        if "(*)(" in t:
            f = a[1]
            name = f[1] if f[0] == "f" else ""
            code = get_fmt(st, k)
            if "3hex" in name:
                code = code & ~3 | 1
            elif "3dec" in name:
                code = code & ~3
            elif "3oct" in name:
                code = code & ~3 | 2
            elif "9uppercase" in name:
                code |= 4
            elif "11nouppercase" in name:
                code &= ~4
            elif "4left" in name:
                code |= 8
            elif "5right" in name or "8internal" in name and False:
                code &= ~8
            elif "4endl" in name:
                return [ret(x, a[0]) for x in emit(E, st, k, const_seq(b"\n"))]
            elif "5flush" in name:
                pass
            else:
                raise Undecided("stream manipulator %s" % name)
            set_fmt(st, k, code)
            return [ret(st, a[0])]
        if re.search(r"::flush\(\)", d):
            return [ret(st, a[0])]
        if "::put(" in d:
            return [ret(x, a[0]) for x in emit(E, st, k, (("b", a[1]),))]
        if "::write(" in d:
            return put_text(E, st, ins, a, models.seq_between(E, st, a[1], P(a[1][1], add(a[1][2], E.lin_of(st, a[2])))))
        if t in ("char", "unsigned char", "signed char"):
            return put_text(E, st, ins, a, [(st, (("b", a[1]),))])
        if t in ("char const*", "unsigned char const*", "signed char const*"):
            return put_text(E, st, ins, a, cstr_seq(E, st, a[1]))
        if "string const&" in t:
            q = seqof(E, st, a[1])
            return [] if q is None else put_text(E, st, ins, a, [(st, q)])
        if t == "bool":
            v = a[1]
            return put_text(E, st, ins, a, int_chunks(E, st, v if isconst(v) else E.trunc(st, v, 1), 8, False, 0))
        W = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
             "short": (16, True), "unsigned short": (16, False), "long long": (64, True), "unsigned long long": (64, False)}
        if t in W:
            w, sg = W[t]
            code = get_fmt(st, k)
            set_fmt(st, k, code & ~(0xffff << 8))
            out = []
            for s, q in int_chunks(E, st, a[1], w, sg, code):
                out += [ret(x, a[0]) for x in emit(E, s, k, q)]
            return out
        st.lossy("output of %s" % t)
        return [ret(x, a[0]) for x in emit(E, st, k, anyseq(E, st))]
    SS = r"^std::(__cxx11::)?(o?stringstream|basic_o?stringstream<.*>)::"
    M(SS + r"basic_o?stringstream\(", ctor)
    M(SS + r"~basic_o?stringstream\(\)$", dtor)
    M(SS + r"str\(\) const$", str_get)
    M(SS + r"str\(std::string const&\)$", str_set)
    M(r"std::operator<<<.*>\(std::ostream&", os_out)
    M(r"^std::ostream& std::ostream::_M_insert<", os_out)
    M(r"^std::ostream::operator<<\(", os_out)
    M(r"std::operator<<<.*>\(std::basic_ostream<", os_out)
    M(r"^std::ostream::(put|write|flush)\(", os_out)
    M(r"^std::ostream& std::(endl|flush)<", lambda E, st, ins, a, d: os_out(E, st, ins, a, d))

    # ---------------------------------------------------------------- sprintf
    SPEC = re.compile(rb"%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([dioxXucs%])")

    def printf_into(E, st, ins, dst, limit, fmtv, args):
        """[(state, value)] for sprintf/snprintf"""
        b = models.cstr_bytes(E, st, fmtv)
        if b is None:
            raise Undecided("format that is not constant")
        states = [(st, ())]
        pos, ai = 0, 0
        while pos < len(b):
            m = SPEC.match(b, pos)
            if not m:
                if b[pos:pos + 1] == b"%":
                    raise Undecided("format %r" % b)
                states = [(s, q + (("b", C(8, b[pos])),)) for s, q in states]
                pos += 1
                continue
            pos = m.end()
            flags, width, prec, size, conv = m.groups()
            if conv == b"%":
                states = [(s, q + (("b", C(8, 37)),)) for s, q in states]
                continue
            if ai >= len(args):
                E.report("memory", st, "format needs more arguments than are given")
                return []
            v = args[ai]; ai += 1
            nx = []
            for s, q in states:
                if conv in b"dioxXu":
                    w = 64 if size in (b"l", b"ll", b"z") else 32
                    if size in (b"hh", b"h"):
                        w = 8 if size == b"hh" else 16
                        v2 = E.trunc(s, v, w)
                    else:
                        v2 = v
                    if flags.strip(b"0-") or prec:
                        raise Undecided("format %r" % b)
                    code = {b"d": 0, b"i": 0, b"u": 0, b"x": 1, b"X": 1 | 4, b"o": 2}[conv]
                    code |= (8 if b"-" in flags else 0) | int(width or 0) << 8
                    code |= (48 if b"0" in flags and b"-" not in flags else 32) << 24
                    if b"0" in flags and b"-" not in flags:
                        code |= 1 << 32
                    for s2, t in int_chunks(E, s, v2, w, conv in b"di", code):
                        nx.append((s2, q + t))
                elif conv == b"c":
                    nx.append((s, q + (("b", E.trunc(s, v, 8)),)))
                else:
                    if width or prec:
                        raise Undecided("format %r" % b)
                    for s2, t in cstr_seq(E, s, v):
                        nx.append((s2, q + t))
            states = nx
        out = []
        for s, q in states:
            n = E.seq_len(s, q)
            if limit is not None:
                if not isconst(limit):
                    raise Undecided("snprintf with unknown size")
                keep, cut = E.split(s, sub(const(cval(limit) - 1), n)) if cval(limit) else (None, s)
                todo = []
                if keep is not None:
                    todo.append((keep, q))
                if cut is not None:
                    todo.append((cut, models.slice_seq(E, cut, q, ZERO, const(max(0, cval(limit) - 1)))))
            else:
                todo = [(s, q)]
            for s2, q2 in todo:
                if limit is not None and not cval(limit):
                    out.append((s2, L(32, n))); continue
                n2 = E.seq_len(s2, q2)
                o = E.deref(s2, dst, 1, "write of formatted text")
                if o is None:
                    continue
                if o.kind == "seq":
                    raise Undecided("formatted text written into a container")
                s3 = E.bounds(s2, o, dst[2], add(n2, ONE), "write of formatted text")
                if s3 is None:
                    continue
                if not n2[1]:
                    i = 0
                    for c in q2 + (("b", C(8, 0)),):
                        if c[0] != "b":
                            raise Undecided("formatted text")
                        r = E.store(s3, P(dst[1], add(dst[2], const(i))), c[1], 1)
                        s3 = r[0]
                        i += 1
                else:
                    m = s3.mut(dst[1])
                    m.cells = {}
                    m.init = "unk"
                    m.attr["cstrseq"] = ("@seq", q2)
                out.append((s3, L(32, n) if n[1] else C(32, n[0])))
        return out

    E.models_sprintf = printf_into

    def sprintf(E, st, ins, a, d):
        return [ret(s, v) for s, v in printf_into(E, st, ins, a[0], None, a[1], a[2:])]

    def snprintf(E, st, ins, a, d):
        return [ret(s, v) for s, v in printf_into(E, st, ins, a[0], a[1], a[2], a[3:])]
    M(r"^sprintf$", sprintf)
    M(r"^snprintf$", snprintf)
