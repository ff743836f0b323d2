"""C13: hexadecimal coding in step with its definition."""
import re
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import ir, models, loops, streams, trans
from models import ret, freshlen

HEX = frozenset(b"0123456789abcdefABCDEF")
FNS["hexlo"] = lambda v: ord("0123456789abcdef"[v & 15])
FNS["hexhi"] = lambda v: ord("0123456789abcdef"[v >> 4 & 15])


def enc_steps(mode):
    return [(ALLBYTES, "any", [lambda E, x, s: E.mkterm(x, 8, ("fn", "hexhi", s)),
                               lambda E, x, s: E.mkterm(x, 8, ("fn", "hexlo", s))], None)]


def keep_high(E, x, s):
    x.ghost["H"] = E.mkterm(x, 8, ("fn", "hexval", s))


def drop_high(E, x, s):
    x.ghost["H"] = C(8, 0)


def dec_steps(mode):
    if mode == "even":
        return [(HEX, "odd", [], keep_high)]
    if mode == "odd":
        return [(HEX, "even", [lambda E, x, s: E.mkterm(x, 8, ("bin", "or", 8, ("bin", "shl", 8, E.expr_of(x.ghost["H"]), ("k", 4)), ("fn", "hexval", s)))], drop_high)]
    return [(ALLBYTES, "dead", [], None)]


class Hex:
    def __init__(self, prog, fn, decode):
        self.prog, self.fn, self.decode = prog, fn, decode
        self.E = E = Engine(prog, max_steps=300000)
        E.keep_quotients = E.positions_matter = True
        models.install(E)
        streams.install(E)
        E.hooks["head"] = trans.fold
        E.hooks["outcome"] = self.outcome
        E.hooks["find_not_of"] = self.find_not_of

    def find_not_of(self, E, st, q, setb, a, d):
        if len(q) != 1 or q[0][0] != "T" or st.ghost.get("bad"):
            return None
        t = st.tapes[q[0][1]]
        if t.pos != ZERO or t.cells or q[0][2] != ZERO or q[0][3] != t.len or not (isconst(a[2]) and cval(a[2]) <= 4):
            return None
        out = []
        if cval(a[2]):
            # the search starts further on: the first bytes stay free
            short, st = E.split(st, sub(const(cval(a[2]) - 1), t.len))
            if short is not None:
                out.append(ret(short, C(64, (1 << 64) - 1)))
            if st is None:
                return out
            t = st.mtape(q[0][1])
            for j in range(cval(a[2])):
                t.cells[j] = E.newfin(st, t.dom)
        no = st.copy()
        no.mtape(q[0][1]).dom = frozenset(t.dom & setb)
        no.note("every byte is one of %d" % len(setb))
        out.append(ret(no, C(64, (1 << 64) - 1)))
        rest = t.dom - setb
        if rest:
            k = freshlen(E, st)
            if E.assume(st, sub(sub(t.len, k), const(1))):
                st.ghost["bad"] = 1 if not rest & HEX else 2      # 2: it refuses bytes that are digits
                st.note("some byte is not one of %d" % len(setb))
                out.append(ret(st, L(64, k)))
        return out

    def outcome(self, E, st, kind, val):
        name = self.fn.dem
        E.oblige("hex", st, name)
        if kind != "ret":
            E.report("hex", st, "%s ends by %s" % (name, kind), name)
            return
        for s0 in trans.finish_read(E, st):
            for s, t in E.truth(s0, val if val[1] == 1 else E.trunc(s0, val, 1)):
                self.final(E, s, t, name)

    def final(self, E, s, t, name):
        tp = s.tapes["text"]
        left = sub(tp.len, tp.pos)
        mode = s.ghost["mode"]
        # what lies ahead and was looked at already
        ahead = [s.fin[c] for k, c in sorted(tp.cells.items()) if k >= 0]
        dead = mode == "dead" or s.ghost.get("bad") == 1 or any(d <= ALLBYTES - HEX for d in ahead)
        odd = self.parity(E, s, add(left, const(1 if mode == "odd" else 0)))
        if not self.decode:
            if not t:
                E.report("hex", s, "%s refuses a text" % name, name)
                return
        elif not t:
            if dead or odd == 1:
                return
            if odd is None:
                h = sym("half of what is left")
                e = sub(add(left, const(1 if mode == "odd" else 0)), scale(h, 2))
                if lin.witness(s.facts | {e, scale(e, -1), left}) is not None:
                    odd = 0
            if odd is None:
                E.give_up(s, "parity of the length at the end of %s" % name)
                return
            if s.ghost.get("bad") != 2 and any(not d <= HEX for d in ahead):
                E.give_up(s, "refusal after a byte that may be a digit")
                return
            E.report("hex", s, "%s refuses a text of an even number of hexadecimal digits" % name, name)
            return
        else:
            if dead:
                E.report("hex", s, "%s accepts a text with a byte that is not a hexadecimal digit" % name, name)
                return
            if odd != 0:
                if odd == 1:
                    E.report("hex", s, "%s accepts a text of odd length" % name, name)
                else:
                    E.give_up(s, "parity of the length at the end of %s" % name)
                return
        # everything must have been converted
        a, b = E.split(s, sub(left, const(1)))
        if a is not None:
            E.report("hex", a, "%s leaves the end of the text unconverted" % name, name)
        if b is None:
            return
        q = b.heap[E.handle(b, b.ghost["result"])].seq
        if b.ghost.get("unfollowed"):
            b.lossy("output that does not follow the text")
        if not trans.same_seq(E, b, b.ghost["D"][1], q):
            E.report("hex", b, "%s gives something else than the text denotes" % name, name)

    def parity(self, E, s, e):
        """0 even, 1 odd, None unknown"""
        e0 = e
        for _ in range(6):
            if all(c % 2 == 0 for _, c in e[1]):
                return e[0] % 2
            # use equalities among the facts
            hit = False
            for f in s.facts:
                if scale(f, -1) in s.facts:
                    for v, c in f[1]:
                        if abs(c) == 1 and dict(e[1]).get(v, 0) % 2:
                            e = sub(e, scale(f, dict(e[1])[v] * c))
                            hit = True
                            break
                if hit:
                    break
            if not hit:
                return None
        return None

    def run(self):
        E = self.E
        st = St()
        n = sym("len")
        E.assume(st, n); E.assume(st, sub(const(1 << 60), n))
        st.tapes["text"] = Tape(n)
        st.ghost["mode"] = "even" if self.decode else "any"
        st.ghost["D"] = ("@seq", ())
        st.ghost["H"] = C(8, 0)
        E.monitors["text"] = trans.Trans(dec_steps if self.decode else enc_steps, start=st.ghost["mode"])
        E.hooks["rewind"] = E.monitors["text"].rewind
        s = st.new(Obj("seq", None, tag="the text", attr={"nul": True}, seq=(("T", "text", ZERO, n),)))
        h = st.new(Obj("ext", const(32), "undef", tag="the text", cells={ZERO: (32, ("S", s))}))
        r = st.new(Obj("ext", const(32), "undef", tag="result"))
        E.set_handle(st, P(r), (("G", "old result", freshlen(E, st)),))
        st.ghost["result"] = P(r)
        E.explore(st, self.fn, [P(h), P(r)])
        return E


def decide(pid, kinds, tier):
    import properties
    prog = ir.load(["crypto"])
    r = properties.Result("abstract interpretation of the hexadecimal encoder and decoder over every text, in step with a transducer of the coding")
    r.rules = ["each byte read adds exactly its two lowercase digits, or each two digits their byte, to what has been produced",
               "a text is refused exactly when its length is odd or some byte is not a hexadecimal digit"]
    for nm, dec in (("str2hex", False), ("hex2str", True)):
        fn = prog.one(r"^eni_crypto::%s\(std::string const&, std::string&\)$" % nm)
        c = Hex(prog, fn, dec)
        E = c.run()
        r.add_engine(E, kinds)
        r.extra.setdefault("outcomes", {})[nm] = len(E.outcomes)
        if not E.outcomes and not E.undecided:
            raise ir.AnalysisBroken("no outcome of %s" % nm)
    return r


if __name__ == "__main__":
    r = decide("C13", ("hex", "memory", "uninit"), "quick")
    print(r.extra, r.obligations, r.discharged)
    for f in r.findings[:5]:
        print(f.text())
    print("UNDECIDED")
    for f in r.undecided[:5]:
        print(f.text())
