"""C07: every operation on JSON values, for every kind of value, keeps contents apart and intact.

Each driver of inst/values.cpp performs one construction, copy, move, assignment or takeover on values of
every kind (with symbolic contents) and looks at all of them before and after.  What holds after each single
operation from every kind of state holds after every sequence of them."""
import re
import ir, models
from lin import const, sub, sym, ZERO
from engine import *
from models import ret, seqof, freshlen

NUM = r"boost::multiprecision::number<"
DRIVERS = ["constructing", "copying", "copy_outlives", "assigning", "assigning_itself", "assigning_part",
           "moving", "taking_over", "lists", "objects", "notations"]
NAMES = ["an integer", "a boolean", "a string", "an object", "a list", "nothing", "a value that was moved away"]


class Values:
    def __init__(self, prog):
        self.prog = prog
        self.E = Engine(prog, max_steps=900000)
        models.install(self.E)
        self.compared = 0
        self.install()

    def install(self):
        E, M = self.E, self.E.model
        M(r"^(.* )?" + NUM + r".*>::number(<[a-z ]+>)?\(", self.num_of)
        M(r"^(.* )?" + NUM + r".*>::(number|operator=)\(" + NUM + r".*> (const&|&&)\)$", self.num_copy)
        M(r"^" + NUM + r".*>::~number\(\)$", lambda E, st, ins, a, d: [ret(st)])
        S = r"^eni::StringMap<json::Value>::"
        M(S + r"StringMap\((unsigned (long|int))?\)$", lambda E, st, ins, a, d: self.map_set(st, a[0], ("none",)))
        M(S + r"(StringMap|operator=)\(eni::StringMap<json::Value> const&\)$", self.map_copy)
        M(S + r"(StringMap|operator=)\(eni::StringMap<json::Value>&&\)$", self.map_move)
        M(S + r"~StringMap\(\)$", self.map_dead)
        M(r"^sa_kind$", self.kind)
        M(r"^sa_(more|bool)$", lambda E, st, ins, a, d: [ret(st.copy(), C(1, 0)), ret(st, C(1, 1))])
        M(r"^sa_text$", self.text)
        M(r"^sa_number$", lambda E, st, ins, a, d: self.num_set(st, a[0], ("number", fresh("i"))))
        M(r"^sa_fill$", lambda E, st, ins, a, d: self.map_set(st, a[0], ("members", fresh("m"))))
        M(r"^sa_int$", lambda E, st, ins, a, d: self.tell(st, "num", a[0]))
        M(r"^sa_obj$", lambda E, st, ins, a, d: self.tell(st, "map", a[0]))
        M(r"^sa_str$", self.tell_str)
        M(r"^sa_boolean$", self.tell_bool)
        M(r"^sa_undef$", lambda E, st, ins, a, d: self.token(st, ("nothing",)))
        M(r"^sa_other$", self.other)
        M(r"^sa_list$", self.tell_list)
        M(r"^sa_end$", lambda E, st, ins, a, d: self.token(st, ("]",)))
        M(r"^sa_is$", self.observed)
        M(r"^sa_same$", self.same)
        M(r"^sa_separate$", self.separate)
        M(r"^sa_empty$", self.empty)
        M(r"^sa_taken$", self.taken)
        M(r"^sa_(refused|accepted)$", self.refused)
        M(r"^sa_what$", self.what)
        E.hooks["outcome"] = self.outcome
        E.hooks["terminate"] = lambda E, st, d: E.report("values", st, "the process is ended by %s" % d)
        E.hooks["gbyte"] = lambda E, st, *a: [(st, ("t", 8, ("s", E.newfin(st, ALLBYTES), 8)))]

    def outcome(self, E, st, kind, val):
        if kind == "throw":
            E.report("values", st, "an exception leaves an operation on values (%s)" % (val[0],))

    def kind(self, E, st, ins, a, d):
        out = []
        nested = st.frames[-1].fn.dem
        for i in range(7):
            s = st.copy()
            s.note("made with %s" % NAMES[i])
            out.append(ret(s, C(32, i)))
        return out

    def text(self, E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        st.mut(s).seq = (("G", fresh("text"), freshlen(E, st)),)
        return [ret(st)]

    # ------------------------------------------------------------ abstract contents
    def at(self, st, v, what):
        E = self.E
        if v[0] != "p":
            E.report("values", st, "%s whose address is not known to be valid" % what)
            return None
        return E.deref(st, v, 1, what)

    def num_set(self, st, v, t):
        o = self.at(st, v, "an integer is set")
        if o is None:
            return []
        m = st.mut(v[1])
        m.attr["num %r" % (v[2],)] = t
        if m.kind == "heap" and v[2] == ZERO:
            m.init = "unk"
        return [ret(st, v)]

    def num_get(self, st, v):
        o = self.at(st, v, "an integer is read")
        return None if o is None else o.attr.get("num %r" % (v[2],), ())

    def num_of(self, E, st, ins, a, d):
        if "number()" in d:
            return self.num_set(st, a[0], ("number", 0))
        m = re.search(r"::number<([a-z ]+)>\(\1 const&", d)
        if m and a[1][0] == "p":
            w = {"int": 32, "unsigned int": 32, "short": 16, "bool": 8}.get(m.group(1), 64)
            r = E.load(st, a[1], w // 8, "i%d" % w)
            return [x for s, v in (r if isinstance(r, list) else [(st, r)]) if v is not None for x in self.num_set(s, a[0], ("number", v))]
        return self.num_set(st, a[0], ("number", fresh("i")))

    def num_copy(self, E, st, ins, a, d):
        t = self.num_get(st, a[1])
        if t is None:
            return []
        if t == ():
            E.report("values", st, "something that is not an integer is copied as one")
            return []
        return self.num_set(st, a[0], t)

    def map_set(self, st, v, t):
        o = self.at(st, v, "a member table is set")
        if o is None:
            return []
        st.mut(v[1]).attr["map %r" % (v[2],)] = t
        return [ret(st, v)]

    def map_copy(self, E, st, ins, a, d):
        o = self.at(st, a[1], "a member table is copied")
        if o is None:
            return []
        t = o.attr.get("map %r" % (a[1][2],))
        if t is None or t[0] == "dead":
            E.report("values", st, "something that is not a member table is copied as one")
            return []
        return self.map_set(st, a[0], t)

    def map_move(self, E, st, ins, a, d):
        if a[0] == a[1]:
            return [ret(st, a[0])]
        r = self.map_copy(E, st, ins, a, d)
        for x in r:
            self.map_set(x[1], a[1], ("none",))
        return r

    def map_dead(self, E, st, ins, a, d):
        o = self.at(st, a[0], "a member table is destroyed")
        if o is None:
            return []
        t = o.attr.get("map %r" % (a[0][2],))
        if t is None or t[0] == "dead":
            E.report("values", st, "something that is not a member table is destroyed as one")
            return []
        return self.map_set(st, a[0], ("dead",))

    # ------------------------------------------------------------ looking
    def token(self, st, t, who=None):
        st.ghost["seen"] = st.ghost.get("seen", ()) + (t,)
        if who is not None:
            st.ghost["who"] = st.ghost.get("who", ()) + (who,)
        return [ret(st)]

    def tell(self, st, kind, v):
        what = {"num": "an integer", "map": "an object"}[kind]
        o = self.at(st, v, "%s is read" % what)
        if o is None:
            return []
        t = o.attr.get("%s %r" % (kind, v[2]))
        if t is None or t[0] == "dead":
            self.E.report("values", st, "a value that says it is %s does not hold one" % what)
            return []
        return self.token(st, t, v)

    def tell_str(self, E, st, ins, a, d):
        o = self.at(st, a[0], "a string is read")
        if o is None:
            return []
        c = o.cells.get(a[0][2])
        if (c is None or c[1][0] != "S") and o.init != "unk":
            E.report("values", st, "a value that says it is a string does not hold one")
            return []
        q = seqof(E, st, a[0])
        return [] if q is None else self.token(st, ("string", ("@seq", q)), a[0])

    def tell_bool(self, E, st, ins, a, d):
        out = []
        v = a[0]
        if v[0] == "t":
            for b, s in E.split_term(st, v[2], lambda x: x & 1):
                out += self.token(s, ("boolean", b))
            return out
        return self.token(st, ("boolean", cval(v) & 1 if isconst(v) else v))

    def other(self, E, st, ins, a, d):
        E.report("values", st, "a value has a type that does not exist")
        return []

    def tell_list(self, E, st, ins, a, d):
        return self.token(st, ("[",), a[0]) if self.at(st, a[0], "a list is read") is not None else []

    def observed(self, E, st, ins, a, d):
        st.ghost["slot%d" % cval(a[0])] = (st.ghost.pop("seen", ()), st.ghost.pop("who", ()))
        return [ret(st)]

    def slot(self, st, v):
        return st.ghost["slot%d" % cval(v)]

    def same(self, E, st, ins, a, d):
        self.compared += 1
        E.oblige("values", st)
        x, y = self.slot(st, a[0])[0], self.slot(st, a[1])[0]
        if x != y:
            E.report("values", st, "%s where %s is expected" % (show(y), show(x)))
            return []
        return [ret(st)]

    def separate(self, E, st, ins, a, d):
        E.oblige("values", st)
        if set(self.slot(st, a[0])[1]) & set(self.slot(st, a[1])[1]):
            E.report("values", st, "two values share one content")
            return []
        return [ret(st)]

    def empty(self, E, st, ins, a, d):
        E.oblige("values", st)
        if self.slot(st, a[0])[0] != (("nothing",),):
            E.report("values", st, "the value still holds %s" % show(self.slot(st, a[0])[0]))
            return []
        return [ret(st)]

    def taken(self, E, st, ins, a, d):
        E.oblige("values", st)
        if a[1] not in self.slot(st, a[0])[1]:
            E.report("values", st, "the content taken over is not the one given")
            return []
        return [ret(st)]

    def refused(self, E, st, ins, a, d):
        E.oblige("values", st)
        full = self.slot(st, a[0])[0] != (("nothing",),)
        if full and "accepted" in d:
            E.report("values", st, "content is taken over by a value that holds something")
            return []
        if not full and "refused" in d:
            E.report("values", st, "an empty value refuses to take content over")
            return []
        return [ret(st)]

    def what(self, E, st, ins, a, d):
        E.oblige("values", st)
        v = a[0]
        if not isconst(v) or not cval(v) & 1:
            E.report("values", st, "copying or moving a type tag goes wrong")
            return []
        return [ret(st)]


def show(ts):
    out = []
    for t in ts:
        out.append({"nothing": "nothing", "[": "[", "]": "]", "number": "an integer", "none": "an object without members", "members": "an object"}.get(t[0], t[0])
                   + (" " + str(t[1]) if t[0] in ("number", "members", "boolean") else " " + " ".join(str(c[1]) for c in t[1][1]) if t[0] == "string" else ""))
    return " ".join(out) or "nothing"


def run():
    prog = ir.load(["values", "value", "notation", "array", "object", "exc"])
    c = Values(prog)
    for n in DRIVERS:
        fn = prog.one(r"^sa_%s$" % n)
        st = St()
        args = []
        if n == "constructing":
            h = st.new(Obj("ext", const(32), "undef", tag="text"))
            c.E.set_handle(st, P(h), (("G", fresh("text"), freshlen(c.E, st)),))
            q = (("G", fresh("cstr"), freshlen(c.E, st), "nonul"),)
            s = st.new(Obj("seq", None, tag="a C string", attr={"nul": True}, seq=q))
            args = [P(h), P(s), L(32, sym(fresh("n")))]
        c.E.heads.clear()
        c.E.stop_at = None; c.E.max_steps = c.E.stats["steps"] + 900000
        c.E.explore(st, fn, args)
    return c


def decide(pid, kinds, tier):
    import properties
    c = run()
    r = properties.Result("abstract interpretation of every construction, copy, move, assignment and takeover of values, for every kind of value")
    r.rules = ["after a copy or assignment both values show the source's content in separate memory, also when one of them is destroyed",
               "after a move the source is empty and the target shows the content; content is taken over exactly by empty values",
               "no content is released twice, released while in use, or read as another type"]
    r.add_engine(c.E, kinds)
    r.extra["comparisons"] = c.compared
    if not c.compared:
        raise ir.AnalysisBroken("nothing compared")
    return r


if __name__ == "__main__":
    import time
    t = time.time()
    c = run()
    E = c.E
    print("time", time.time() - t, E.stats, "compared", c.compared)
    print("findings", len(E.findings), "undecided", len(E.undecided), "unmodelled", E.unmodelled)
    for f in list(E.findings.values())[:4]: print(f.text())
    for f in list(E.undecided.values())[:4]: print(f.text())
