"""C17: every error object of every identifier and base seen through every class a handler may name; every
throw site of the library; and what can leave the parser.

The class relations are obligations of the type system (inst/exceptions.cpp), the messages are followed by
abstract interpretation from the registration to what() (including the initialisation of the message table),
and an exception-flow analysis over the call graph decides what can escape."""
import re
import ir, models
from lin import const, ZERO
from engine import *
from models import ret, seqof, cstr_seq, const_seq
from check_types import witness


class Says:
    def __init__(self, prog):
        self.prog = prog
        self.E = E = Engine(prog, max_steps=400000)
        models.install(E)
        M = E.model
        M(r"^sa_expect$", self.expect)
        M(r"^sa_says$", self.says)
        STD = r"^std::(logic_error|runtime_error|length_error|out_of_range|invalid_argument|domain_error|range_error|overflow_error)"
        M(STD + r"::what\(\) const$", self.what)
        M(r"^std::(exception|bad_alloc)::what\(\) const$", self.std_what)
        M(STD + r"::\w+\(std::(?!string)\w+ const&\)$", self.copy)
        E.hooks["outcome"] = self.outcome
        E.hooks["terminate"] = lambda E, st, d: E.report("message", st, "the process is ended by %s" % d)
        self.said = 0

    def text(self, st, q):
        return P(st.new(Obj("seq", None, tag="message", attr={"nul": True}, seq=tuple(q))))

    def what(self, E, st, ins, a, d):
        o = E.deref(st, a[0], 8, "what()")
        if o is None:
            return []
        t = o.attr.get("what@" + repr(a[0][2]))
        if t is None:
            raise Undecided("message of an error that was not constructed")
        return [ret(st, self.text(st, t[1]))]

    def std_what(self, E, st, ins, a, d):
        return [ret(st, self.text(st, const_seq(b"std::" + (b"bad_alloc" if "bad_alloc" in d else b"exception"))))]

    def copy(self, E, st, ins, a, d):
        o, s = E.deref(st, a[0], 16, "copy of an error"), E.deref(st, a[1], 16, "copy of an error")
        if o is None or s is None:
            return []
        t = s.attr.get("what@" + repr(a[1][2]))
        m = st.mut(a[0][1])
        m.attr["what@" + repr(a[0][2])] = t
        m.init = "unk"
        return [ret(st)]

    def expect(self, E, st, ins, a, d):
        r = []
        for s, q in cstr_seq(E, st, a[1]):
            s.ghost["message"] = s.ghost.get("message", ()) + ((cval(a[0]), ("@seq", q)),)
            r.append(ret(s))
        return r

    def says(self, E, st, ins, a, d):
        r = []
        base = models.cstr_bytes(E, st, a[1]).decode()
        seen = models.cstr_bytes(E, st, a[2]).decode()
        E.oblige("message", st, "identifier %d as %s seen as %s" % (cval(a[0]), base, seen))
        self.said += 1
        for s, q in cstr_seq(E, st, a[3]):
            want = dict(s.ghost["message"]).get(cval(a[0]))[1]
            if q != want:
                E.report("message", s, "an error with the message '%s' says '%s' (base class %s, seen as %s)" % (show(want), show(q), base, seen),
                         "include/eni/diagnostic/Exception.h")
            r.append(ret(s))
        return r

    def outcome(self, E, st, kind, val):
        if kind == "throw":
            E.report("message", st, "making an error fails")

    def run(self):
        E = self.E
        st = St()
        # the message table is initialised first
        inits = [f for f in self.prog.functions.values() if f.name.startswith("_GLOBAL__sub_I_") and f.defined and f.tu == "exc"]
        outs = [("ret", st, None)]
        for f in inits:
            nx = []
            for k, s, v in outs:
                for r in E.explore(s, f, []):
                    if r[0] == "ret":
                        nx.append(r)
            outs = nx
        fn = self.prog.one(r"^sa_exceptions\(\)$")
        for k, s, v in outs:
            E.heads.clear()
            E.explore(s, fn, [])


def show(q):
    return "".join(chr(cval(c[1])) if c[0] == "b" and isconst(c[1]) else "?" for c in q)


# ------------------------------------------------------------ exception flow
class Flow:
    """which exception types can leave each function: a fixpoint over the call graph.  Thrown types are the
    operands of throw expressions; library functions add the standard types they document (none that matter
    here); a call through a pointer may throw what any function of its kind throws."""

    def __init__(self, prog):
        self.prog = prog
        self.out = {f.name: frozenset() for f in prog.functions.values() if f.defined}
        self.sites = []
        change = True
        rounds = 0
        while change:
            change = False
            rounds += 1
            for f in prog.functions.values():
                if f.defined:
                    n = self.escapes(f)
                    if n != self.out[f.name]:
                        self.out[f.name] = n
                        change = True
        self.rounds = rounds

    def escapes(self, f):
        out = set()
        for b in f.blocks:
            for i in b:
                fx = i.get("f")
                if i["o"] not in ("call", "invoke") or not fx:
                    continue
                if fx[0] != "f":
                    continue
                if fx[1] == "__cxa_throw":
                    ti = i["a"][1][1] if i["a"][1][0] == "g" else None
                    t = {ti}
                elif fx[1] == "__cxa_rethrow":
                    t = {"rethrow"}
                elif fx[1] in self.out:
                    t = self.out[fx[1]]
                else:
                    continue
                if i["o"] == "invoke":
                    t = self.through(f, i, t)
                out |= set(t)
        if "rethrow" in out:
            out.discard("rethrow")
            out |= self.caught_somewhere(f)
        return frozenset(out)

    def pad(self, f, i):
        for j in f.blocks[i["ub"]]:
            if j["o"] == "landingpad":
                return j
        return None

    def through(self, f, i, types):
        p = self.pad(f, i)
        if p is None:
            return types
        rest = set()
        clauses = self.clauses(p)
        for t in types:
            for c in clauses:
                if c is None or t is not None and t != "rethrow" and self.prog.catches(t, c):
                    break
            else:
                rest.add(t)
        return rest

    def clauses(self, p):
        return [None if o[0] == "null" else o[1] for k, o in p["clauses"] if k == "catch"]

    def caught_somewhere(self, f):
        got = set()
        for b in f.blocks:
            for i in b:
                if i["o"] == "invoke" and i.get("f") and i["f"][0] == "f" and i["f"][1] in self.out:
                    got |= set(self.out[i["f"][1]]) - set(self.through(f, i, self.out[i["f"][1]]))
        return got


UNITS = ["parser", "values", "containers", "object", "array", "value", "notation", "exc"]


def decide(pid, kinds, tier):
    import properties
    r = properties.Result("class obligations, messages of every error object, every throw site, and what can escape the parser")
    r.rules = ["each error class converts to its named standard base and to std::exception (no ambiguity, public)",
               "what() seen as the error, as its base, as std::exception, also after copying, is the registered message of that identifier",
               "every type thrown by library code can be caught as std::exception, or is never thrown out of the class that throws it",
               "nothing thrown by parsing functions leaves the parser's public functions"]
    if witness("exceptions", r, "class", "Exception.h"):
        c = Says(ir.load(["exceptions", "exc"]))
        c.run()
        r.add_engine(c.E, kinds)
        r.extra["messages looked at"] = c.said
        if not c.said and not r.findings:
            raise ir.AnalysisBroken("no message was looked at")
    prog = ir.load(UNITS)
    fl = Flow(prog)
    sites = 0
    inner = set()
    for f in prog.functions.values():
        if not f.defined or not f.repo or "/inst/" in f.file:
            continue
        r.functions.add(f.dem)
        for b in f.blocks:
            for i in b:
                if i.get("f") == ["f", "__cxa_throw"] or (i.get("f") and i["f"][0] == "f" and i["f"][1] == "__cxa_throw"):
                    sites += 1
                    r.obligations += 1
                    ti = i["a"][1][1] if i["a"][1][0] == "g" else None
                    if f.dem.startswith("json::Parser::"):
                        inner.add(ti)
                        r.discharged += 1
                    elif ti is None or not prog.catches(ti, "_ZTISt9exception"):
                        r.findings.append(Finding("class", "throws %s, which a handler for std::exception does not catch" % ti, f.where(i.get("l")) if hasattr(f, "where") else f.dem, [], [], True, None))
                    else:
                        r.discharged += 1
    for f in prog.functions.values():
        if f.defined and f.dem.startswith("json::Parser::") and re.match(r"json::Parser::(Parser|~Parser|getRoot|operator bool)\b", f.dem):
            r.obligations += 1
            bad = fl.out[f.name] & inner
            if bad:
                r.findings.append(Finding("escape", "%s can leave the parser through %s" % (", ".join(sorted(map(str, bad))), f.dem), f.where(f.line), [], [], True, None))
            else:
                r.discharged += 1
    r.extra["throw sites"] = sites
    r.extra["exception flow"] = "%d functions, %d rounds; thrown inside the parser: %s" % (len(fl.out), fl.rounds, sorted(map(str, inner)))
    return r


if __name__ == "__main__":
    r = decide("C17", ("message", "class", "escape", "memory", "uninit"), "quick")
    print(r.stats, r.obligations, r.discharged, r.extra)
    for f in r.findings + r.undecided: print(f.text())
