"""C10: eni_gas and eni_run, for every command line and every outcome of loading, symbol lookup and the operation.

The words of the command line are handed out one by one as the program reads them, in classes that matter for
options and positions (empty, -, --, other words starting with one or two dashes, other words), so that any
number of words is covered; a monitor keeps what a proper reading of them would be."""
import re
import ir, models, streams
from lin import const, sym, add, sub, scale, ZERO
from engine import *
from models import ret, seqof, freshlen, const_seq, cstr_seq

CLASSES = ["an empty word", "a single dash", "a double dash", "an option", "a word starting with --", "an ordinary word"]
OUTCOMES = {"usage": "a usage error", "load": "a library that does not load", "sym": "a missing function",
            "null": "an operation without result", "ok": "success"}
MAXARGS = 1 << 30


def spell(q):
    t = ""
    for c in q:
        t += chr(cval(c[1])) if c[0] == "b" and isconst(c[1]) else "?" if c[0] == "b" else "<%s>" % (c[1][0] if isinstance(c[1], tuple) else re.sub(r"\d+$", "", str(c[1])))
    return t


class Cli:
    def __init__(self, prog, tool, depth=0):
        self.prog, self.tool, self.depth = prog, tool, depth
        self.E = E = Engine(prog, max_steps=6000000 if depth else 1500000)
        models.install(E)
        streams.install(E)
        self.status = {}
        self.ends = {}
        M = E.model
        M(r"^dlopen$", self.dlopen)
        M(r"^dlsym$", self.dlsym)
        M(r"^dlclose$", self.dlclose)
        M(r"^dlerror$", self.dlerror)
        M(r"^puts$", lambda E, st, ins, a, d: self.out(st, [(s, q + const_seq(b"\n")) for s, q in cstr_seq(E, st, a[0])]))
        M(r"^putchar$", lambda E, st, ins, a, d: self.out(st, [(st, (("b", E.trunc(st, a[0], 8)),))]))
        M(r"^(printf|vprintf|fwrite|fputs|fputc|putc|fprintf|write)$", self.cwrite)
        E.hooks["argv"] = self.argv
        E.hooks["indirect"] = self.indirect
        E.hooks["outcome"] = self.outcome
        E.hooks["terminate"] = lambda E, st, d: E.report("cli", st, "the process is ended by %s" % d)
        # bytes inside a word after its first ones are not zero
        E.hooks["gbyte"] = lambda E, st, *a: [(st, ("t", 8, ("s", E.newfin(st, ALLBYTES - {0}), 8)))]

    # ------------------------------------------------------------ the command line
    def words(self, st):
        """[(state, class, bytes)]"""
        E = self.E
        out = []
        g = st.ghost
        some = range(6)
        if g.get("plain"):
            some = (0, 2, 3, 5)
        if g.get("odd", 0) > self.depth or g.get("count", 0) > 2:
            # in a quick check only so many positional words are unusual ones
            some = (5,) if g.get("plain") else (2, 3, 5)
        if g.get("count", 0) > 2 and not self.depth:
            # a fourth word is tried behind three ordinary ones, or anything else when it is too many anyway
            some = () if g.get("odd", 0) else (5,) if g.get("plain") or g["count"] > 3 else (2, 3, 5)
        for i in some:
            s = st.copy()
            tail = lambda: ("G", fresh("word"), freshlen(E, s, "n", const(1 << 30)), "nonul")
            byte = lambda no: ("b", ("t", 8, ("s", E.newfin(s, ALLBYTES - {0} - set(no)), 8)))
            dash = ("b", C(8, 45))
            q = [(), (dash,), (dash, dash), lambda: (dash, byte(b"-"), tail()), lambda: (dash, dash, byte(b""), tail()),
                 lambda: (byte(b"-"), tail())][i]
            out.append((s, i, q() if callable(q) else q))
        return out

    def object(self, st, q):
        return P(st.new(Obj("seq", None, tag="a word of the command line", attr={"nul": True}, seq=tuple(q))))

    def argv(self, E, st, oid, off, size, ty):
        if size != 8 or any(c % 8 for s, c in off[1]) or off[0] % 8:
            raise Undecided("access inside the argument vector")
        i = (off[0] // 8, tuple((s, c // 8) for s, c in off[1]))
        argc = st.ghost["argc"][2]
        nxt = st.ghost["next"][2]
        E.oblige("memory", st)
        if not E.ent(st, i) or not E.ent(st, sub(argc, i)):
            E.report("memory", st, "read outside the argument vector")
            if not E.assume(st, i) or not E.assume(st, sub(argc, i)):
                return []
        out = []
        more, end = E.split(st, sub(sub(argc, i), ONE))
        if end is not None:
            end.ghost["saw"] = 1
            out.append((end, NULL))
        if more is None:
            return out
        st = more
        same = lambda e: E.ent(st, e) and E.ent(st, scale(e, -1))
        if same(i):
            return out + [(st, self.object(st, (("G", fresh("program"), freshlen(E, st, "n", const(1 << 30)), "nonul"),)))]
        if same(sub(i, nxt)):
            for s, k, q in self.words(st):
                s.note(CLASSES[k])
                s.ghost["next"] = L(64, add(nxt, ONE))
                self.read_word(s, k, q)
                p = self.object(s, q)
                s.ghost["last"] = p
                out.append((s, p))
            return out
        if same(add(sub(i, nxt), ONE)) and "last" in st.ghost:
            return out + [(st, st.ghost["last"])]
        raise Undecided("the words of the command line are not read in order")

    def read_word(self, st, k, q):
        g = st.ghost
        if not g.get("plain"):
            if k == 2:
                g["plain"] = 1
                return
            if k in (1, 3, 4):
                return
        n = g.get("count", 0)
        if k != 5:
            g["odd"] = g.get("odd", 0) + 1
        if n < 3:
            g["pos%d" % (n + 1)] = ("@seq", tuple(q))
        else:
            for i in (1, 2, 3):
                g["pos%d" % i] = None
        g["count"] = min(n + 1, 4)

    def usage_ok(self, st):
        """the command line is a proper one; None when that is still open"""
        E = self.E
        if st.ghost.get("count", 0) >= 4:
            return False
        if E.ent(st, sub(st.ghost["next"][2], st.ghost["argc"][2])):
            return st.ghost.get("count", 0) == 3
        return None

    # ------------------------------------------------------------ loading and calling
    def text(self, st, v):
        r = cstr_seq(self.E, st, v)
        return r

    def dlopen(self, E, st, ins, a, d):
        out = []
        E.oblige("cli", st)
        if st.ghost.get("phase"):
            E.report("cli", st, "a second library is loaded")
            return []
        if self.usage_ok(st) is not True:
            E.report("cli", st, "a library is loaded although the command line %s"
                     % ("is wrong" if self.usage_ok(st) is False else "was not read to its end"))
            return []
        if not isconst(a[1]) or not cval(a[1]) & 3 or cval(a[1]) & 4:
            E.report("cli", st, "the library is not loaded with lazy or immediate binding")
            return []
        for s, q in self.text(st, a[0]):
            if q != s.ghost["pos1"][1]:
                E.report("cli", s, "the library loaded is '%s' and not the first positional word '%s'" % (spell(q), spell(s.ghost["pos1"][1])))
                continue
            no = s.copy()
            no.ghost["phase"] = "load"
            no.note("the library does not load")
            out.append(ret(no, NULL))
            s.ghost["phase"] = "loaded"
            h = s.new(Obj("ext", None, "unk", tag="library handle"))
            s.ghost["handle"] = P(h)
            out.append(ret(s, P(h)))
        return out

    def dlsym(self, E, st, ins, a, d):
        out = []
        E.oblige("cli", st)
        if st.ghost.get("phase") != "loaded" or a[0] != st.ghost["handle"]:
            E.report("cli", st, "a function is looked up in something that is not the loaded library")
            return []
        want = st.ghost["pos2"][1] + const_seq(b"_" + self.tool.encode())
        for s, q in self.text(st, a[1]):
            if q != want:
                E.report("cli", s, "the function looked up is '%s' and not '%s'" % (spell(q), spell(want)))
                continue
            no = s.copy()
            no.ghost["phase"] = "sym"
            no.note("the function is missing")
            out.append(ret(no, NULL))
            s.ghost["phase"] = "found"
            f = s.new(Obj("ext", None, "unk", tag="the operation"))
            s.ghost["function"] = P(f)
            out.append(ret(s, P(f)))
        return out

    def dlclose(self, E, st, ins, a, d):
        if st.ghost.get("handle") != a[0]:
            E.report("cli", st, "something that is not the loaded library is closed")
            return []
        if st.ghost.get("closed"):
            E.report("cli", st, "the library is closed twice")
            return []
        st.ghost["closed"] = 1
        return [ret(st, C(32, 0))] + ([] if True else [])

    def dlerror(self, E, st, ins, a, d):
        if st.ghost.get("phase") in ("load", "sym") and not st.ghost.get("told"):
            st.ghost["told"] = 1
            s = None
        else:
            s = st.copy()
        q = (("G", fresh("error"), freshlen(E, st, "n", const(1 << 20)), "nonul"),)
        return ([ret(s, NULL)] if s is not None else []) + [ret(st, self.object(st, q))]

    def indirect(self, E, st, ins, callee, args):
        E.oblige("cli", st)
        if st.ghost.get("phase") != "found" or callee != st.ghost.get("function"):
            E.report("cli", st, "the operation is called more than once" if st.ghost.get("phase") in ("null", "ok")
                     else "something that was not looked up is called")
            return []
        if st.ghost.get("closed"):
            E.report("cli", st, "the operation is called after its library was closed")
            return []
        out = []
        for s, q in cstr_seq(E, st, args[0]):
            if q != s.ghost["pos3"][1]:
                E.report("cli", s, "the operation gets '%s' and not the third positional word '%s'" % (spell(q), spell(s.ghost["pos3"][1])))
                continue
            no = s.copy()
            no.ghost["phase"] = "null"
            no.note("the operation has no result")
            out.append(ret(no, NULL))
            s.ghost["phase"] = "ok"
            if self.tool == "gas":
                g = sym("gas")
                E.assume(s, g); E.assume(s, sub(const((1 << 64) - 1), g))
                o = s.new(Obj("heap", const(8), "undef", tag="the gas", attr={"by": "malloc"}))
                s.mut(o).cells[ZERO] = (8, L(64, g))
                s.ghost["want"] = ("@seq", (("num", None, ONE),))
            else:
                n = freshlen(E, s, "n", const(1 << 30))
                q = (("G", "result", n, "nonul"),)
                o = s.new(Obj("heap", add(n, ONE), "unk", tag="the result", attr={"by": "malloc", "cstrseq": ("@seq", q)}))
                s.ghost["want"] = ("@seq", q)
            s.ghost["theresult"] = P(o)
            out.append(ret(s, P(o)))
        return out

    # ------------------------------------------------------------ output
    def cout(self, st):
        o = self.E.obj(st, ("G", "_ZSt4cout"))
        return st.heap[("G", "_ZSt4cout")].cells[ZERO][1][1]

    def out(self, st, qs):
        r = []
        for s, q in qs:
            m = s.mut(self.cout(s))
            m.seq = m.seq + tuple(q)
            r.append(ret(s, C(32, 1)))
        return r

    def cwrite(self, E, st, ins, a, d):
        where = {"fprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}.get(d)
        if d == "write":
            if not isconst(a[0]):
                raise Undecided("write to an unknown descriptor")
            std = cval(a[0]) == 1
        elif where is None:
            std = True
        else:
            f = a[where]
            if f not in (P(("G", "$stdout")), P(("G", "$stderr"))):
                raise Undecided("output to an unknown file")
            std = f == P(("G", "$stdout"))
        if not std:
            return [ret(st, C(32, 1))]
        if d in ("printf", "fprintf"):
            k = 0 if d == "printf" else 1
            big = st.new(Obj("stack", const(1 << 40), "undef", tag="formatted text"))
            rs = []
            for x in E.models_sprintf(E, st, ins, P(big), None, a[k], a[k + 1:]):
                s = x[0]
                o = s.heap[big]
                q = o.attr["cstrseq"][1] if "cstrseq" in o.attr else None
                if q is None:
                    q = []
                    i = 0
                    while const(i) in o.cells and not (isconst(o.cells[const(i)][1]) and cval(o.cells[const(i)][1]) == 0):
                        q.append(("b", o.cells[const(i)][1])); i += 1
                rs.append((s, tuple(q)))
            return self.out(st, rs)
        if d == "fputs":
            return self.out(st, cstr_seq(E, st, a[0]))
        if d in ("fputc", "putc"):
            return self.out(st, [(st, (("b", E.trunc(st, a[0], 8)),))])
        p = a[1] if d == "write" else a[0]
        n = E.lin_of(st, a[2]) if d == "write" else None
        if n is None:
            r = E.bin(st, "mul", 64, a[1], a[2])
            st, v = r[0]
            n = E.lin_of(st, v)
        if p[0] == "p" and E.obj(st, p[1]) is not None and st.heap[p[1]].kind == "seq":
            return self.out(st, models.seq_between(E, st, p, P(p[1], add(p[2], n))))
        rs = []
        for s, q in cstr_seq(E, st, p):
            if E.seq_len(s, q) != n:
                raise Undecided("part of a text is written")
            rs.append((s, q))
        return self.out(st, rs)

    # ------------------------------------------------------------ end
    def outcome(self, E, st, kind, val):
        E.oblige("cli", st)
        if kind == "throw":
            E.report("cli", st, "an exception ends the tool (%s)" % (val[0],), self.tool + " main")
            return
        where = "tools/eni_cli/eni_%s.cpp: main" % self.tool
        ph = st.ghost.get("phase", "usage")
        ph = {"loaded": "notlooked", "found": "notcalled"}.get(ph, ph)
        if ph == "notlooked":
            E.report("cli", st, "ends without looking up the function", where)
            return
        if ph == "notcalled":
            E.report("cli", st, "ends without calling the operation", where)
            return
        if ph == "usage":
            u = self.usage_ok(st)
            if u is True:
                E.report("cli", st, "a proper command line is refused", where)
                return
            if u is None:
                E.report("cli", st, "the command line is judged before it was read", where)
                return
        if val is None or not isconst(val):
            E.report("cli", st, "the exit status of %s is not fixed" % OUTCOMES[ph], where)
            return
        v = cval(val) & 255
        self.status.setdefault(ph, {}).setdefault(v, st)
        self.ends[ph] = self.ends.get(ph, 0) + 1
        q = st.heap[self.cout(st)].seq
        if ph != "ok":
            if q:
                E.report("cli", st, "%s prints '%s' on standard output" % (OUTCOMES[ph], spell(q)), where)
            return
        if q and q[-1] == ("b", C(8, 10)):
            q = q[:-1]
        if self.tool == "gas":
            good = [streams.int_chunks(E, st.copy(), L(64, sym("gas")), 64, False, c)[0][1][0][1] for c in (streams.DEFFMT,)]
            ok = len(q) == 1 and q[0][0] == "G" and isinstance(q[0][1], tuple) and q[0][1][0] == "int" and q[0][1][1] & 7 == 0 \
                and not q[0][1][1] >> 8 & 0xffff and q[0][1][2:] == good[0][2:]
            if not ok:
                E.report("cli", st, "prints '%s' where the gas (unsigned, decimal) is expected" % spell(q), where)
        elif q != st.ghost["want"][1]:
            E.report("cli", st, "prints '%s' where the result is expected" % spell(q), where)

    def run(self):
        E = self.E
        st = St()
        n = sym("argc")
        E.assume(st, n); E.assume(st, sub(const(MAXARGS), n))
        st.ghost["argc"] = L(64, n)
        st.ghost["next"] = C(64, 1)
        av = st.new(Obj("ext", None, "unk", tag="argv", attr={"onload": "argv"}))
        for i, name in enumerate(("_ZSt4cout",)):
            E.obj(st, ("G", name))
            s = st.new(Obj("seq", None, tag="stream", attr={"nul": False}, seq=()))
            o = st.mut(("G", name))
            o.cells[ZERO] = (8, ("S", s))
            o.cells[const(8)] = (8, C(64, streams.DEFFMT))
            st.ghost["stdout"] = ("S", s)
        for name in ("stdout", "stderr"):
            st.heap[("G", "$" + name)] = Obj("global", None, "unk", tag=name)
            E.obj(st, ("G", name))
            st.mut(("G", name)).cells[ZERO] = (8, P(("G", "$" + name)))
        st.ghost["files"] = (P(("G", "_ZSt4cout")), P(("G", "$stdout")), P(("G", "$stderr")), P(("G", "stdout")), P(("G", "stderr")))
        E.explore(st, self.prog.one(r"^main$"), [L(32, n), P(av)])
        # statuses
        for ph in OUTCOMES:
            if not self.ends.get(ph) and not E.findings:
                raise ir.AnalysisBroken("no way through eni_%s ends with %s" % (self.tool, OUTCOMES[ph]))
        for ph, m in self.status.items():
            for v, st in m.items():
                E.oblige("cli", st)
                w = "tools/eni_cli/eni_%s.cpp: main" % self.tool
                if ph == "ok" and v:
                    E.report("cli", st, "success ends with status %d" % v, w)
                if ph != "ok" and not v:
                    E.report("cli", st, "%s ends with status 0" % OUTCOMES[ph], w)
                for p2, m2 in self.status.items():
                    if p2 > ph and v in m2:
                        E.report("cli", m2[v], "%s and %s end with the same status %d" % (OUTCOMES[ph], OUTCOMES[p2], v), w)


def run(tool, depth=0):
    c = Cli(ir.load([tool, "opt"]), tool, depth)
    c.run()
    return c


def decide(pid, kinds, tier):
    import properties
    r = properties.Result("abstract interpretation of main of eni_gas and eni_run for every command line and every outcome of loading, lookup and the operation")
    r.rules = ["the library, function and parameters used are the three positional words, and only when there are exactly three",
               "what is on standard output at the end is exactly the result, and nothing when there is none",
               "usage, load, lookup and result failures end with distinct nonzero statuses and success with 0"]
    for t in ("gas", "run"):
        c = run(t, 3 if tier == "thorough" else 0)
        r.add_engine(c.E, kinds)
        r.extra["ends of eni_" + t] = {OUTCOMES[k]: "status %s in %d abstract states" % (sorted(c.status.get(k, {})), n) for k, n in c.ends.items()}
    return r


if __name__ == "__main__":
    import sys, time
    for t in sys.argv[1:] or ["gas", "run"]:
        t0 = time.time()
        c = run(t)
        E = c.E
        print(t, "time", time.time() - t0, E.stats, c.ends, {k: sorted(v) for k, v in c.status.items()})
        print("findings", len(E.findings), "undecided", len(E.undecided), "unmodelled", E.unmodelled)
        for f in list(E.findings.values())[:4]: print(f.text())
        for f in list(E.undecided.values())[:4]: print(f.text())
