"""C06: what printing a value puts into the stream, for every kind of value.

The text of a string is followed byte by byte: a decoder of JSON string literals reads what is put into
the stream, and what it decodes must be what the string holds.  Lists and objects have any number of
members; what is put into the stream between their members is read by an automaton."""
import re
import lin, ir, models, loops, streams, trans
from lin import const, sym, add, sub, scale, ZERO
from engine import *
from models import ret, seqof, freshlen
from check_values import Values
import check_vector

FNS["unesc"] = lambda v: {98: 8, 102: 12, 110: 10, 114: 13, 116: 9}.get(v, v)
HEX = frozenset(b"0123456789abcdefABCDEF")
SPACE = frozenset(b" \t\r\n")
START, BODY, ESC, CLOSED = 0, 1, 2, 7
MAXLIST = (1 << 31) - 1


def cls_body(r):
    return "quote" if r == 34 else "back" if r == 92 else "control" if r < 32 else "plain"


def cls_esc(r):
    return "short" if r in b'"\\/bfnrt' else "u" if r == 117 else "bad"


class Printing(Values):
    def __init__(self, prog):
        Values.__init__(self, prog)
        E = self.E
        streams.install(E)
        E.positions_matter = True
        E.keep_quotients = True
        M = E.model
        M(r"^std::ostream& boost::multiprecision::operator<<<", self.out_num)
        M(r"^sa_of_boolean$", lambda E, st, ins, a, d: self.of(st, "boolean", a[0]))
        M(r"^sa_of_number$", lambda E, st, ins, a, d: self.of(st, "number", a[0]))
        M(r"^sa_fill$", self.fill)
        S = r"(eni::)?(StringMap|StringHashTable|HashTable)<.*>::"
        M(S + r"~?(StringMap|StringHashTable|HashTable)\(", lambda E, st, ins, a, d: [ret(st)])
        M(S + r"begin\(\)( const)?$", lambda E, st, ins, a, d: self.iterator(st, a[0], ZERO))
        M(S + r"end\(\)( const)?$", lambda E, st, ins, a, d: self.iterator(st, a[0], self.n(st)))
        M(r".*::(empty)\(\) const$", self.isempty)
        M(S + r"size\(\) const$", lambda E, st, ins, a, d: [ret(st, L(64, self.n(st)))] if "Vector" not in d else None)
        M(r".*(TableImpl|HashTable)<.*>::(numOfEntries)\(\) const$", lambda E, st, ins, a, d: [ret(st, L(64, self.n(st)))])
        I = r"^eni::EntryIterBase<.*>::"
        M(I + r"EntryIterBase\(\)$", lambda E, st, ins, a, d: self.iterator(st, a[0], self.n(st)))
        M(I + r"EntryIterBase\(eni::EntryIterBase<.*> const&\)$", self.it_copy)
        M(I + r"assign\(", self.it_copy)
        M(I + r"operator eni::EntryIterBase<", self.it_copy)
        M(I + r"equals\(", self.it_equal)
        M(I + r"advance\(\)$", self.it_next)
        M(I + r"reset\(\)$", lambda E, st, ins, a, d: self.iterator(st, a[0], self.n(st)))
        M(I + r"getEntry\(\)( const)?$", self.it_entry)
        M(r".*Entry<.*>::key\(\)( const)?$", self.entry_key)
        M(r".*Entry<.*>::value\(\)( const)?$", self.entry_value)
        E.hooks["emitted"] = self.emitted
        E.hooks["precall"] = self.precall
        E.hooks["head"] = self.head
        E.hooks["outcome"] = self.outcome
        E.hooks["cutcstr"] = self.cut
        E.monitors["text"] = trans.Trans(lambda mode: [(ALLBYTES, "any", [lambda E, x, s: ("t", 8, s)], None)])
        del E.hooks["gbyte"]
        self.doing = None
        self.done = 0

    # ------------------------------------------------------------ the table of members
    def n(self, st):
        return st.ghost["number of members"][2]

    def iterator(self, st, p, pos):
        o = self.at(st, p, "an iterator is set")
        if o is None:
            return []
        st.mut(p[1]).cells[p[2]] = (8, L(64, pos))
        return [ret(st, p)]

    def where(self, st, p):
        o = self.at(st, p, "an iterator is read")
        if o is None:
            return None
        c = o.cells.get(p[2])
        if c is None or c[1][0] != "l":
            raise Undecided("an iterator this analysis did not set")
        return c[1][2]

    def it_copy(self, E, st, ins, a, d):
        pos = self.where(st, a[1])
        return [] if pos is None else self.iterator(st, a[0], pos)

    def it_equal(self, E, st, ins, a, d):
        x, y = self.where(st, a[0]), self.where(st, a[1])
        if x is None or y is None:
            return []
        out = []
        return self.eq_states(E, st, x, y)

    def eq_states(self, E, st, x, y):
        out = []
        a, less = E.split(st, sub(x, y))
        if less is not None:
            out.append(ret(less, C(1, 0)))
        if a is not None:
            eq, more = E.split(a, sub(y, x))
            if eq is not None:
                out.append(ret(eq, C(1, 1)))
            if more is not None:
                out.append(ret(more, C(1, 0)))
        return out

    def it_next(self, E, st, ins, a, d):
        pos = self.where(st, a[0])
        if pos is None:
            return []
        ok, bad = E.split(st, sub(sub(self.n(st), pos), ONE))
        if bad is not None:
            E.report("print", bad, "an iterator is moved past the end of the members")
        return [] if ok is None else self.iterator(ok, a[0], add(pos, ONE))

    def it_entry(self, E, st, ins, a, d):
        pos = self.where(st, a[0])
        if pos is None:
            return []
        ok, bad = E.split(st, sub(sub(self.n(st), pos), ONE))
        if bad is not None:
            E.report("print", bad, "the member behind the end is used")
        return [] if ok is None else [ret(ok, P(ok.ghost["entries"][1], scale(pos, 64)))]

    def position(self, st, p, tag, size):
        if p[0] != "p" or p[1] not in st.heap or st.heap[p[1]].tag != tag:
            return None
        e = p[2]
        if e[0] % size or any(c % size for _, c in e[1]):
            raise Undecided("a pointer into the middle of a member")
        return (e[0] // size, tuple((v, c // size) for v, c in e[1]))

    def entry_key(self, E, st, ins, a, d):
        pos = self.position(st, a[-1], "the members", 64)
        if pos is None:
            return None
        if len(a) == 2:      # returned by value
            q = (("b", ("e", "names", pos)), ("G", "the rest of a name", freshlen(E, st)))
            return [] if E.set_handle(st, a[0], q) is None else [ret(st)]
        h = st.new(Obj("ext", const(32), "undef", tag="a name"))
        E.set_handle(st, P(h), (("b", ("e", "names", pos)), ("G", "the rest of a name", freshlen(E, st))))
        return [ret(st, P(h))]

    def entry_value(self, E, st, ins, a, d):
        pos = self.position(st, a[0], "the members", 64)
        return None if pos is None else [ret(st, P(st.ghost["values"][1], scale(pos, self.vsz)))]

    def isempty(self, E, st, ins, a, d):
        if not re.search(r"(StringMap|HashTable|TableImpl)<", d):
            return None
        return self.eq_states(E, st, self.n(st), ZERO)

    def cut(self, E, st, o, v, k):
        if o.seq and o.seq[0][0] == "b" and o.seq[0][1][0] == "e" and v[2] == ZERO:
            st.note("the name holds a NUL")
            return [(st, (("b", o.seq[0][1]), ("G", "a part of a name", k)))]
        return None

    # ------------------------------------------------------------ what is printed
    def of(self, st, what, v):
        st.ghost[what] = v
        return [ret(st)]

    def fill(self, E, st, ins, a, d):
        return [ret(st)]

    def precall(self, E, st, ins, fn, a):
        if fn.dem != "json::Value::print(std::ostream&) const" or self.doing not in ("list", "object"):
            return None
        pos = self.position(st, a[0], "the elements", self.vsz)
        if pos is not None:
            return [ret(s) for s in self.token(E, st, "value", pos)]
        # a value made for the name of a member
        if a[0][0] == "p" and a[0][1] in st.heap:
            for sz, v in st.heap[a[0][1]].cells.values():
                if v[0] == "p" and v[1] in st.heap and v[2] == ZERO:
                    c = st.heap[v[1]].cells.get(ZERO)
                    if c is not None and c[1][0] == "S":
                        q = st.heap[c[1][1]].seq
                        if q and q[0][0] == "b" and q[0][1][0] == "e":
                            if len(q) == 2 and q[1][1] == "the rest of a name":
                                return [ret(s) for s in self.token(E, st, "name", q[0][1][2])]
                            E.report("print", st, "a name is printed only in part")
                            return []
        return None

    def token(self, E, st, what, pos):
        """a name or a value is printed"""
        if not hasattr(pos, "__len__"):
            return []
        E.oblige("print", st)
        m = st.ghost["mode"]
        want = {"list": {"first": "value", "next": "value"},
                "object": {"first": "name", "next": "name", "colon": "value"}}[self.doing].get(m)
        if want != what:
            E.report("print", st, "a %s is printed %s" % (what, where(m)))
            return []
        k = st.ghost["printed"][2]
        for s, v in ((x[1], x[2] if len(x) > 2 else None) for x in self.eq_states(E, st, pos, k)):
            if cval(v) & 1:
                ok = s
            else:
                E.report("print", s, "a %s is printed where another is due" % what)
                continue
            if what == "name":
                ok.ghost["mode"] = "name"
            else:
                ok.ghost["mode"] = "after"
                ok.ghost["printed"] = L(64, add(k, ONE))
            return [ok]
        return []

    def emitted(self, E, st, oid, q):
        st.mut(oid).seq = ()
        states = [st]
        for c in q:
            nxt = []
            for s in states:
                if c[0] != "b":
                    nxt += self.chunk(E, s, c)
                else:
                    nxt += {"string": self.in_literal, "list": self.in_list, "object": self.in_list}.get(self.doing, self.in_word)(E, s, c[1])
            states = nxt
        return states

    def by_hand(self, E, s, v):
        """a name that is not printed by way of a value"""
        if v[0] == "e":
            E.report("print", s, "a name is printed as it is, without escapes")
        else:
            E.give_up(s, "a name printed by hand")
        return []

    def chunk(self, E, st, c):
        if E.is_empty(st, c):
            return [st]
        if self.doing == "number" and c[0] == "G" and isinstance(c[1], tuple) and c[1][0] == "int":
            E.report("print", st, "an integer of up to 256 bits is printed as a machine integer")
            return []
        E.give_up(st, "text of this form in what is printed")
        return []

    def classes(self, E, st, v, f):
        """[(class, state)] of an emitted byte"""
        v = E.simp(st, v)
        if isconst(v):
            return [(f(cval(v) & 255), st)]
        if v[0] == "u":
            E.report("uninit", st, "an uninitialised byte is printed")
            return []
        x = E.expr_of(v)
        if x is None:
            raise Undecided("a byte of unknown origin is printed")
        return list(E.split_term(st, x, lambda r: f(r & 255)))

    # a string literal
    def in_literal(self, E, st, v):
        m = st.ghost["literal"]
        out = []
        if m == START:
            for c, s in self.classes(E, st, v, lambda r: r == 34):
                if c:
                    s.ghost["literal"] = BODY
                    out.append(s)
                else:
                    E.report("print", s, "a string does not start with a quote")
        elif m == BODY:
            for c, s in self.classes(E, st, v, cls_body):
                if c == "control":
                    E.report("print", s, "a control character is printed as it is")
                    continue
                if c == "plain":
                    self.got(s, v)
                else:
                    s.ghost["literal"] = CLOSED if c == "quote" else ESC
                out.append(s)
        elif m == ESC:
            for c, s in self.classes(E, st, v, cls_esc):
                if c == "bad":
                    E.report("print", s, "an escape that JSON does not have is printed")
                    continue
                if c == "short":
                    self.got(s, self.term(E, s, v, lambda x: ("fn", "unesc", x)))
                    s.ghost["literal"] = BODY
                else:
                    s.ghost["literal"] = 3
                    s.ghost["code"] = C(16, 0)
                out.append(s)
        elif m < CLOSED:
            for c, s in self.classes(E, st, v, lambda r: r in HEX):
                if not c:
                    E.report("print", s, "a \\u escape without four hexadecimal digits is printed")
                    continue
                acc = E.expr_of(s.ghost["code"])
                s.ghost["code"] = self.term(E, s, v, lambda x: ("bin", "or", 16, ("bin", "shl", 16, acc, ("k", 4)), ("fn", "hexval", x)), 16)
                s.ghost["literal"] = m + 1 if m < 6 else BODY
                if m < 6:
                    out.append(s)
                    continue
                code = s.ghost.pop("code")
                for big, t in ([(cval(code) > 255, s)] if isconst(code) else E.split_term(s, E.expr_of(code), lambda r: r > 255)):
                    if big:
                        E.report("print", t, "an escape is printed that stands for no byte")
                        continue
                    self.got(t, E.trunc(t, code, 8))
                    out.append(t)
        else:
            for c, s in self.classes(E, st, v, lambda r: r in SPACE):
                if not c:
                    E.report("print", s, "text follows the closing quote of a string")
                else:
                    out.append(s)
        return out

    def term(self, E, s, v, f, w=8):
        x = E.expr_of(E.simp(s, v))
        if x is None:
            raise Undecided("a byte of unknown origin is printed")
        return E.simp(s, E.mkterm(s, w, f(x)))

    def got(self, s, v):
        s.ghost["O"] = ("@seq", s.ghost["O"][1] + (("b", v),))

    def match(self, E, st):
        """cancels what was decoded against what was read; False when they differ"""
        D, O = st.ghost["D"][1], st.ghost["O"][1]
        while D and O:
            if not trans.same_chunk(E, st, D[0], O[0]):
                E.report("print", st, "the literal stands for another text than the string holds")
                return False
            D, O = D[1:], O[1:]
        if len(D) > 8:
            raise Undecided("printing far behind reading")
        st.ghost["D"], st.ghost["O"] = ("@seq", D), ("@seq", O)
        return True

    def head(self, E, st):
        if self.doing == "string" and not self.match(E, st):
            return None
        return st

    # lists and objects
    def in_list(self, E, st, v):
        out = []
        lst = self.doing == "list"
        if st.ghost["mode"] == "by hand" or v[0] == "e":
            return self.by_hand(E, st, v)
        op, cl = (91, 93) if lst else (123, 125)
        for r, s in self.classes(E, st, v, lambda r: r):
            m = s.ghost["mode"]
            if r in SPACE:
                out.append(s)
                continue
            to = None
            if m == "start" and r == op:
                to = "first"
            elif m == "after" and r == 44:
                to = "next"
            elif not lst and m in ("first", "next") and r == 34:
                to = "by hand"
            elif m == "name" and r == 58:
                to = "colon"
            elif m in ("first", "after") and r == cl:
                to = "end"
            if to is None:
                E.report("print", s, "%r is printed %s" % (chr(r), where(m)))
                continue
            s.ghost["mode"] = to
            if to == "end":
                for x in self.eq_states(E, s, s.ghost["printed"][2], self.n(s)):
                    if cval(x[2]) & 1:
                        out.append(x[1])
                    else:
                        E.report("print", x[1], "%s ends before every member is printed" % ("a list" if lst else "an object"))
                continue
            out.append(s)
        return out

    # true, false, an integer
    def in_word(self, E, st, v):
        out = []
        for r, s in self.classes(E, st, v, lambda r: r):
            s.ghost["word"] = s.ghost["word"] + chr(r)
            if len(s.ghost["word"]) > 100:
                raise Undecided("a long word")
            out.append(s)
        return out

    def out_num(self, E, st, ins, a, d):
        t = self.num_get(st, a[1])
        if t is None:
            return []
        if self.doing != "number":
            E.report("print", st, "an integer is printed for something else")
            return []
        if t == () or t != self.num_get(st, st.ghost["number"]):
            E.report("print", st, "another integer is printed")
            return []
        st.ghost["word"] = st.ghost["word"] + "#"
        return [ret(st, a[0])]

    def outcome(self, E, st, kind, val):
        self.done += 1
        E.oblige("print", st)
        nm = "printing a %s" % self.doing
        if kind != "ret":
            E.report("print", st, "%s ends by %s" % (nm, kind))
            return
        if self.doing == "string":
            for s in trans.finish_read(E, st):
                if s.ghost["literal"] != CLOSED:
                    E.report("print", s, "the literal of a string is not closed")
                    continue
                t = s.tapes["text"]
                a, b = E.split(s, sub(sub(t.len, t.pos), ONE))
                if a is not None:
                    E.report("print", a, "the end of a string is not printed")
                if b is not None and self.match(E, b):
                    if b.ghost["D"][1]:
                        E.report("print", b, "a byte of a string is not printed")
                    elif b.ghost["O"][1]:
                        E.report("print", b, "a byte is printed that the string does not hold")
        elif self.doing in ("list", "object"):
            if st.ghost["mode"] != "end":
                E.report("print", st, "%s ends %s" % (nm, where(st.ghost["mode"])))
        elif self.doing == "number":
            if st.ghost["word"].strip() != "#":
                E.report("print", st, "an integer is printed as %r" % st.ghost["word"].replace("#", "<the integer>"))
        else:
            b = st.ghost["boolean"]
            for s, t in E.truth(st, b if b[1] == 1 else E.trunc(st, b, 1)):
                if s.ghost["word"].strip() != ("true" if t else "false"):
                    E.report("print", s, "%s is printed as %r" % (str(t).lower(), s.ghost["word"]))

    def drive(self, kind):
        E = self.E
        self.doing = kind
        fn = self.prog.one(r"^sa_print_%s$" % {"list": "array"}.get(kind, kind))
        st = St()
        s = st.new(Obj("seq", None, tag="stream", attr={"nul": False}, seq=()))
        os = st.new(Obj("ext", const(512), "unk", tag="the stream", cells={ZERO: (8, ("S", s)), const(8): (8, C(64, streams.DEFFMT))}))
        args = [P(os)]
        if kind == "string":
            n = sym("len")
            E.assume(st, n); E.assume(st, sub(const(1 << 60), n))
            st.tapes["text"] = Tape(n)
            st.ghost.update(mode="any", D=("@seq", ()), O=("@seq", ()), literal=START)
            t = st.new(Obj("seq", None, tag="the text", attr={"nul": True}, seq=(("T", "text", ZERO, n),)))
            args.insert(0, P(st.new(Obj("ext", const(32), "undef", tag="the text", cells={ZERO: (32, ("S", t))}))))
        elif kind == "number":
            st.ghost["word"] = ""
            o = st.new(Obj("ext", const(64), "unk", tag="an integer", attr={"num %r" % (ZERO,): ("number", "i")}))
            args.insert(0, P(o))
        elif kind == "boolean":
            st.ghost["word"] = ""
            args.insert(0, ("t", 1, ("bin", "and", 8, ("s", E.newfin(st, frozenset((0, 1))), 8), ("k", 1))))
        else:
            n = sym("members")
            E.assume(st, n); E.assume(st, sub(const(MAXLIST), n))
            st.ghost.update(mode="start", printed=L(64, ZERO))
            st.ghost["number of members"] = L(64, n)
            v = st.new(Obj("ext", scale(n, self.vsz), "unk", tag="the elements"))
            st.ghost["values"] = P(v)
            if kind == "list":
                o = Obj("heap", None, "unk", tag="a list", attr={"by": "new"})
                off = self.vec.off
                p = sym("room")
                E.assume(st, sub(p, n))
                o.cells = {const(off["data"]): (8, P(v)), const(off["size"]): (8, L(64, n)), const(off["cap"]): (8, L(64, p))}
                args.insert(0, P(st.new(o)))
            else:
                e = st.new(Obj("ext", scale(n, 64), "unk", tag="the members"))
                st.ghost["entries"] = P(e)
        E.heads.clear()
        E.stop_at = None; E.max_steps = E.stats["steps"] + 300000
        E.explore(st, fn, args)


def where(m):
    return {"start": "before the opening bracket", "first": "right after the opening bracket", "after": "right after a value",
            "next": "right after a comma", "name": "right after a name", "colon": "right after a colon", "by hand": "in a name", "end": "after the closing bracket"}[m]


def run():
    prog = ir.load(["printing", "value", "notation", "array", "object", "exc"])
    c = Printing(prog)
    c.vec = check_vector.Vectors(prog, "json::Value", 0, ())
    c.vec.layout()
    sizes = {i["size"] for f in prog.functions.values() if f.defined for b in f.blocks for i in b
             if i["o"] == "alloca" and i.get("ty") == '%"class.json::Value"'}
    if len(sizes) != 1:
        raise ir.AnalysisBroken("size of a value not found")
    c.vsz = sizes.pop()
    c.counts = {}
    for k in ("string", "number", "boolean", "list", "object"):
        c.done = 0
        c.drive(k)
        c.counts[k] = c.done
    return c


def decide(pid, kinds, tier):
    import properties
    c = run()
    r = properties.Result("abstract interpretation of printing every kind of value, the output read by a JSON recogniser in step with the value")
    r.rules = ["the literal printed for a string decodes to exactly its bytes, and holds no raw control character",
               "lists and objects are printed as bracket, members in order each once, commas between them, a colon after each name, bracket",
               "true, false and integers are printed as such"]
    r.assumptions.append("lists have fewer than 2^31 elements; members and elements are themselves printed as this property says (induction on the nesting)")
    r.add_engine(c.E, kinds)
    r.extra["outcomes"] = c.counts
    for k, n in c.counts.items():
        if not n and not r.undecided and not r.findings:
            raise ir.AnalysisBroken("no outcome of printing a %s" % k)
    return r


if __name__ == "__main__":
    import time
    t = time.time()
    c = run()
    E = c.E
    print("time", time.time() - t, E.stats, c.counts)
    print("findings", len(E.findings), "undecided", len(E.undecided), "unmodelled", E.unmodelled)
    for f in list(E.findings.values())[:4]: print(f.text())
    for f in list(E.undecided.values())[:4]: print(f.text())
