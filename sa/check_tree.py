"""C05, second part: what the parser's callbacks build.

The callbacks are interpreted for every way of nesting (up to three open containers, each with arbitrary
earlier contents) and compared with the value the reported events denote.  JSON values, lists, member tables
and integers are abstract here: a place that holds one has a cell ("V", term).  Terms:
  undef | bool v | str seq | int seq | arr base items | obj base updates | dead | box place
`base` stands for arbitrary earlier contents (None: nothing)."""
import re
import ir, models
from lin import const, sub, sym, add, ZERO
from engine import *
from models import ret, seqof, freshlen

NUM = r"boost::multiprecision::number<"
TAGS = {"undef": 0, "int": 1, "bool": 2, "str": 3, "obj": 4, "arr": 5}
PUSHED = [("pushed", None, None)]


class Tree:
    def __init__(self, prog):
        self.prog = prog
        self.E = Engine(prog, max_steps=600000)
        models.install(self.E)
        self.checks = 0
        self.install()

    def install(self):
        E, M = self.E, self.E.model
        V = r"^json::Value::"
        M(V + r"Value\(\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("undef",)))
        M(r"^json::Notation::Notation\(\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("undef",)))
        M(V + r"Value\(bool\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("bool", a[1])))
        M(V + r"Value\(int\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("num", a[1])))
        M(V + r"Value\(std::string const&\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("str", self.seq(st, a[1]))))
        M(V + r"Value\(char const\*\)$", self.from_cstr)
        M(V + r"Value\((json::(Value|Array|Object)|" + NUM + r".*>) const&\)$", self.copy)
        M(V + r"operator=\(json::Value const&\)$", self.copy)
        M(r"^json::(Array|Object)::(Array|Object|operator=)\(json::(Array|Object) (const&|&&)\)$", self.copy)
        M(V + r"Value\(json::Value&&\)$", self.move)
        M(V + r"~Value\(\)$", self.dead)
        M(r"^json::(Array|Object)::~(Array|Object)\(\)$", self.dead)
        M(V + r"delegate\(", self.delegate)
        M(r"^json::Array::Array\(\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("arr", None, ())))
        M(r"^json::Object::Object\(\)$", lambda E, st, ins, a, d: self.put(st, a[0], ("obj", None, ())))
        M(V + r"(as|to)(Object|Array|String|Integer)(\[abi:cxx11\])?\(\)( const)?$", self.payload)
        M(V + r"toBoolean\(\) const$", self.boolean)
        M(r"^json::Notation::is(\w+)\(\) const$", self.tag)
        M(r"^json::Notation::type\(\) const$", self.tag)
        M(r"^(.* )?eni::Vector<json::Value.*>::push_back\(json::Value (const&|&&)\)$", self.append)
        M(r"^(.* )?eni::Vector<json::Value.*>::emplace_back<json::Value( const&|&|)?>\(", self.append)
        M(r"^eni::StringMap<json::Value>::operator\[\]\(std::string const&\)$", self.member)
        M(r"^(.* )?" + NUM + r".*>::number<std::string>\(std::string const&, ", lambda E, st, ins, a, d: self.put(st, a[0], ("int", self.seq(st, a[1]))))
        M(r"^(.* )?" + NUM + r".*>::number<char const\*>\(char const\* const&, ", self.int_cstr)
        M(r"^(.* )?" + NUM + r".*>::number<(long long|long|int|unsigned int|unsigned long|unsigned long long)>\(", self.int_machine)
        M(r"^(.* )?" + NUM + r".*>::(number|operator=)\(" + NUM + r".*> (const&|&&)\)$", self.copy)
        M(r"^" + NUM + r".*>::~number\(\)$", self.dead)
        M(r"^(__isoc23_)?(strtoll|strtol|atoll|atol|atoi|strtoimax)$", self.strto)
        M(r"^std::__cxx11::sto(ll|l|i)\(std::string const&, unsigned long\*, int\)$", self.sto)
        M(r"^std::sto(ll|l|i)\(std::string const&, unsigned long\*, int\)$", self.sto)
        M(r"^sa_kind$", lambda E, st, ins, a, d: [ret(st.copy(), C(32, i)) for i in range(cval(a[0]))])
        M(r"^sa_(more)$", lambda E, st, ins, a, d: [ret(st.copy(), C(1, 0)), ret(st, C(1, 1))])
        M(r"^sa_bool$", self.a_bool)
        M(r"^sa_text$", self.a_text)
        M(r"^sa_arbitrary$", self.arbitrary)
        M(r"^sa_open$", self.open)
        M(r"^sa_close$", self.close)
        M(r"^sa_check_root$", self.check_root)
        E.hooks["outcome"] = self.outcome
        E.hooks["terminate"] = lambda E, st, d: E.report("tree", st, "the process is ended by %s while a value is put together" % d)

    def outcome(self, E, st, kind, val):
        if kind == "throw":
            E.report("tree", st, "an exception leaves the callbacks")

    # ------------------------------------------------------------ abstract values
    def seq(self, st, v):
        return ("@seq", seqof(self.E, st, v))

    def put(self, st, v, term, size=8):
        if isinstance(term, tuple) and ("@seq", None) in term:
            return []
        v = self.place(st, v, make=True)
        if v is None:
            return []
        o = self.E.deref(st, v, size, "construction of a value")
        if o is None:
            return []
        st2 = self.E.bounds(st, o, v[2], const(size), "construction of a value")
        if st2 is None:
            return []
        o = st2.mut(v[1])
        o.cells[v[2]] = (size, ("V", term))
        return [ret(st2, v)]

    def place(self, st, v, make=False):
        """pointer to the cell of the value at v (v may point to a base class of it)"""
        if v[0] != "p" or v[1] not in st.heap:
            if v[0] == "p":
                self.E.deref(st, v, 8, "use of a value")
            else:
                self.E.give_up(st, "a value behind an unknown pointer")
            return None
        o = st.heap[v[1]]
        c = o.cells.get(v[2])
        if make or (c is not None and c[1][0] == "V"):
            return v
        for k, c in o.cells.items():          # a base class at an offset within a list or table
            d = sub(v[2], k)
            if c[1][0] == "V" and not d[1] and 0 < d[0] < 64 and c[1][1][0] in ("arr", "obj"):
                return (v[0], v[1], k)
        self.E.give_up(st, "no value at this address")
        return None

    def term(self, st, v, what="use of a value"):
        """the value at v, without sharing"""
        v = self.place(st, v)
        if v is None:
            return None
        o = self.E.deref(st, v, 8, what)
        if o is None:
            return None
        return self.resolve(st, o.cells[v[2]][1][1], what)

    def resolve(self, st, t, what):
        E = self.E
        while t[0] == "box":
            p = t[1]
            o = E.deref(st, p, 8, what)
            if o is None:
                return None
            c = o.cells.get(p[2])
            if c is None or c[1][0] != "V":
                E.give_up(st, "no content behind a value")
                return None
            t = c[1][1]
        if t[0] == "dead":
            E.report("memory", st, "%s that was destroyed" % what)
            return None
        if t[0] == "arr":
            items = tuple(self.resolve(st, x, what) for x in t[2])
            return None if None in items else (t[0], t[1], items)
        if t[0] == "obj":
            ups = tuple((k, self.resolve(st, x, what)) for k, x in t[2])
            return None if any(x is None for _, x in ups) else (t[0], t[1], ups)
        return t

    def copy(self, E, st, ins, a, d):
        t = self.term(st, a[1], "copy of a value")
        return [] if t is None else self.put(st, a[0], t)

    def move(self, E, st, ins, a, d):
        v = self.place(st, a[1])
        if v is None or E.deref(st, v, 8, "move of a value") is None:
            return []
        t = st.heap[v[1]].cells[v[2]][1][1]
        if t[0] == "dead":
            E.report("memory", st, "move of a value that was destroyed")
            return []
        st.mut(v[1]).cells[v[2]] = (8, ("V", ("undef",)))
        return self.put(st, a[0], t)

    def dead(self, E, st, ins, a, d):
        v = self.place(st, a[0])
        if v is None:
            return []
        if E.deref(st, v, 8, "destruction of a value") is None:
            return []
        t = st.heap[v[1]].cells[v[2]][1][1]
        if t[0] == "dead":
            E.report("memory", st, "a value is destroyed twice")
            return []
        st.mut(v[1]).cells[v[2]] = (8, ("V", ("dead",)))
        return [ret(st)]

    def delegate(self, E, st, ins, a, d):
        t = self.term(st, a[0])
        if t is None:
            return []
        if t[0] != "undef":
            E.give_up(st, "content taken over by a value that holds something")
            return []
        v = self.place(st, a[1])
        if v is None:
            return []
        return [ret(x[1], a[0]) for x in self.put(st, a[0], ("box", v))]

    def payload(self, E, st, ins, a, d):
        want = {"Object": "obj", "Array": "arr", "String": "str", "Integer": "int"}[re.search(r"(as|to)(Object|Array|String|Integer)", d).group(2)]
        t = self.term(st, a[0])
        if t is None:
            return []
        if t[0] != want:
            E.report("tree", st, "a value is read as another type than it has")
            return []
        v = self.place(st, a[0])
        raw = st.heap[v[1]].cells[v[2]][1][1]
        if raw[0] == "box":
            return [ret(st, raw[1])]
        if want == "str":
            h = st.new(Obj("heap", const(32), "undef", tag="string of a value"))
            E.set_handle(st, P(h), t[1][1])
            E.give_up(st, "string inside a value is handed out") if "as" in d else None
            return [ret(st, P(h))]
        h = st.new(Obj("heap", const(64), "unk", tag="content of a value"))
        st.mut(h).cells[ZERO] = (8, ("V", raw))
        st.mut(v[1]).cells[v[2]] = (8, ("V", ("box", P(h))))
        return [ret(st, P(h))]

    def boolean(self, E, st, ins, a, d):
        t = self.term(st, a[0])
        if t is None:
            return []
        if t[0] != "bool":
            E.report("tree", st, "a value is read as another type than it has")
            return []
        return [ret(st, t[1])]

    def tag(self, E, st, ins, a, d):
        t = self.term(st, a[0])
        if t is None:
            return []
        m = re.search(r"::is(\w+)\(", d)
        if m:
            want = {"Object": "obj", "Array": "arr", "String": "str", "Integer": "int", "Boolean": "bool", "Undefined": "undef"}.get(m.group(1))
            return [ret(st, C(1, 1 if t[0] == want else 0))]
        E.give_up(st, "type tag used as a number")
        return []

    def append(self, E, st, ins, a, d):
        v = self.place(st, a[0])
        if v is None or E.deref(st, v, 8, "use of a list") is None:
            return []
        raw = st.heap[v[1]].cells[v[2]][1][1]
        t = self.term(st, a[1], "copy of a value")
        if t is None:
            return []
        if raw[0] != "arr":
            E.report("tree", st, "an element is added to something that is not a list")
            return []
        st.mut(v[1]).cells[v[2]] = (8, ("V", ("arr", raw[1], raw[2] + (t,))))
        return [ret(st)]

    def member(self, E, st, ins, a, d):
        v = self.place(st, a[0])
        if v is None or E.deref(st, v, 8, "use of a member table") is None:
            return []
        raw = st.heap[v[1]].cells[v[2]][1][1]
        if raw[0] != "obj":
            E.report("tree", st, "a member of something that is not an object")
            return []
        k = self.seq(st, a[1])
        if k[1] is None:
            return []
        for kk, t in raw[2]:
            if kk == k and t[0] == "box":
                return [ret(st, t[1])]
        h = st.new(Obj("heap", const(24), "unk", tag="member of an object"))
        old = [t for kk, t in raw[2] if kk == k]
        st.mut(h).cells[ZERO] = (8, ("V", old[-1] if old else ("member", raw[1], k)))
        st.mut(v[1]).cells[v[2]] = (8, ("V", ("obj", raw[1], raw[2] + ((k, ("box", P(h))),))))
        return [ret(st, P(h))]

    # ------------------------------------------------------------ integers
    def from_cstr(self, E, st, ins, a, d):
        out = []
        for s, q in models.cstr_seq(E, st, a[1]):
            out += self.put(s, a[0], ("str", ("@seq", q)))
        return out

    def int_cstr(self, E, st, ins, a, d):
        p = E.load(st, a[1], 8, "ptr")
        out = []
        for s, v in p if isinstance(p, list) else [(st, p)]:
            if v is None:
                continue
            for s2, q in models.cstr_seq(E, s, v):
                out += self.put(s2, a[0], ("int", ("@seq", q)))
        return out

    def machine(self, E, st, q, w):
        """the machine integer a digit text of at most 18 characters denotes"""
        v = L(w, sym(fresh("number")))
        n = E.seq_len(st, q)
        exact = n is not None and E.ent(st, sub(const(18 if w == 64 else 9), n))
        st.ghost["numeric %r" % (v,)] = ("@seq", q) if exact else ("inexact",)
        return v

    def strto(self, E, st, ins, a, d):
        if "strto" in d and not (isconst(a[2]) and cval(a[2]) == 10):
            E.report("tree", st, "an integer is not read as decimal")
            return []
        return [ret(s, self.machine(E, s, q, 32 if d == "atoi" else 64)) for s, q in models.cstr_seq(E, st, a[0])]

    def sto(self, E, st, ins, a, d):
        q = seqof(E, st, a[0])
        return [] if q is None else [ret(st, self.machine(E, st, q, 32 if "stoi" in d else 64))]

    def int_machine(self, E, st, ins, a, d):
        w = 32 if "number<int>" in d or "number<unsigned int>" in d else 64
        r = E.load(st, a[1], w // 8, "i%d" % w)
        out = []
        for s, v in (r if isinstance(r, list) else [(st, r)]):
            if v is None:
                continue
            k = s.ghost.get("numeric %r" % (v,))
            out += self.put(s, a[0], ("int", k) if k is not None else ("num", v))
        return out

    # ------------------------------------------------------------ the events and what they denote
    def a_bool(self, E, st, ins, a, d):
        v = E.mkterm(st, 1, ("s", E.newfin(st, frozenset((0, 1))), 1)) if False else None
        out = []
        for b in (0, 1):
            s = st.copy()
            self.happened(s, ("bool", C(1, b)))
            out.append(ret(s, C(1, b)))
        return out

    def a_text(self, E, st, ins, a, d):
        s = E.handle(st, a[0], "byte vector")
        if s is None:
            return []
        what = cval(a[1])
        n = freshlen(E, st)
        if what == 1:
            E.assume(st, sub(n, ONE))
        q = (("G", fresh(("key", "digits", "text")[what]), n) + (("nonul",) if what == 1 else ()),)
        st.mut(s).seq = q
        if what == 0:
            st.ghost["want"] = st.ghost.get("want", ()) + (("key", ("@seq", q)),)
        else:
            self.happened(st, ("int" if what == 1 else "str", ("@seq", q)))
        return [ret(st)]

    def happened(self, st, t):
        w = st.ghost.get("want", ())
        if w and w[-1][0] == "key":
            k = w[-1][1]
            w = w[:-1]
            c = w[-1]
            w = w[:-1] + ((c[0], c[1], c[2] + ((k, t),)),)
        elif w and w[-1][0] == "arr":
            c = w[-1]
            w = w[:-1] + ((c[0], c[1], c[2] + (t,)),)
        else:
            w = w + (t,)
        st.ghost["want"] = w
        st.note("a %s is reported%s" % ({"bool": "boolean", "int": "number", "str": "string", "arr": "list", "obj": "object"}[t[0]],
                                        " inside %s" % " inside ".join({"arr": "a list", "obj": "an object"}.get(x[0], "") for x in reversed(w) if x[0] in ("arr", "obj")) if w and w[-1] is not t else ""))

    def open(self, E, st, ins, a, d):
        st.ghost["want"] = st.ghost.get("want", ()) + (("arr" if cval(a[0]) else "obj", None, ()),)
        return [ret(st)]

    def close(self, E, st, ins, a, d):
        w = st.ghost["want"]
        st.ghost["want"] = w[:-1]
        self.happened(st, w[-1])
        return [ret(st)]

    def arbitrary(self, E, st, ins, a, d):
        """the container opened last may hold anything already"""
        w = st.ghost["want"]
        kind = w[-1][0]
        found = [(oid, k) for oid, o in st.heap.items() if o.life == "live" for k, c in o.cells.items()
                 if c[1][0] == "V" and c[1][1] == (kind, None, ())]
        if len(found) != 1:
            E.report("tree", st, "after a container was opened there is not one empty %s but %d" % ("list" if kind == "arr" else "object", len(found)))
            return []
        b = fresh("contents")
        oid, k = found[0]
        st.mut(oid).cells[k] = (8, ("V", (kind, b, ())))
        st.ghost["want"] = w[:-1] + ((kind, b, ()),)
        return [ret(st)]

    def check_root(self, E, st, ins, a, d):
        self.checks += 1
        E.oblige("tree", st)
        t = self.term(st, a[0], "the root value")
        if t is None:
            return []
        want = st.ghost["want"][0]
        if t != want:
            E.report("tree", st, "the value put together is %s where %s was reported" % (show(t), show(want)))
        return [ret(st)]


def show(t):
    if t[0] == "arr":
        return "[%s]" % ", ".join((["..."] if t[1] else []) + [show(x) for x in t[2]])
    if t[0] == "obj":
        return "{%s}" % ", ".join((["..."] if t[1] else []) + ["%s: %s" % (sq(k), show(x)) for k, x in t[2]])
    if t[0] in ("str", "int"):
        return "%s %s" % ({"str": "string", "int": "integer"}[t[0]], sq(t[1]))
    if t[0] == "bool":
        return {0: "false", 1: "true"}.get(cval(t[1]), "?") if isconst(t[1]) else "a boolean"
    return t[0]


def sq(k):
    if k == ("inexact",):
        return "cut to a machine integer"
    return " ".join(str(c[1]) if c[0] in ("G",) else "..." for c in k[1])


def run(E=None):
    prog = ir.load(["callbacks"])
    c = Tree(prog)
    c.E.explore(St(), prog.one(r"^sa_from_nothing$"), [])
    return c


if __name__ == "__main__":
    import time
    t = time.time()
    c = run()
    E = c.E
    print("time", time.time() - t, E.stats, "checks", c.checks)
    print("findings", len(E.findings), "undecided", len(E.undecided), "unmodelled", E.unmodelled)
    for f in list(E.findings.values())[:4]: print(f.text())
    for f in list(E.undecided.values())[:4]: print(f.text())
