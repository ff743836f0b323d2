"""C03 C04 C05: the JSON parser against a transducer of the documented grammar."""
import lin
from lin import const, sym, add, sub, ZERO
from engine import *
import ir, models, loops

WS = frozenset(b" \t\n\r")
DIG = frozenset(b"0123456789")
POS = frozenset(b"123456789")
HEX = frozenset(b"0123456789abcdefABCDEF")
ESC = {ord('"'): 34, ord('\\'): 92, ord('/'): 47, ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9}
Q, BS = 34, 92


def B(c):
    return frozenset(c.encode())


def after_value(stack):
    return "end" if not stack else {"arr": "arrA", "obj": "objA"}[stack[-1]]


def value_start(stack):
    """[(bytes, mode, stack, pending events, token action)] for the first byte of a value"""
    return [
        (B("t"), ("lit", "true", 1, 1), stack, (), None),
        (B("f"), ("lit", "false", 1, 0), stack, (), None),
        (B('"'), ("str", 0), stack, (), "start"),
        (B("-"), ("num-",), stack, (), "startpush"),
        (B("0"), ("num0",), stack, (), "startpush"),
        (POS, ("num",), stack, (), "startpush"),
        (B("["), ("arr1",), stack + ("arr",), (("begin_array",),), None),
        (B("{"), ("obj1",), stack + ("obj",), (("begin_object",),), None),
    ]


def spec_steps(mode, stack):
    """[(bytes, mode, stack, events, action)]; bytes not listed lead to 'dead'"""
    m = mode[0]
    stay = (WS, mode, stack, (), None)
    if m == "top":
        return [stay] + value_start(stack)
    if m == "end":
        return [stay]
    if m == "lit":
        w, i, v = mode[1:]
        if i + 1 == len(w):
            return [(B(w[i]), (after_value(stack),), stack, (("bool", v),), None)]
        return [(B(w[i]), ("lit", w, i + 1, v), stack, (), None)]
    if m == "num-":
        return [(B("0"), ("num0",), stack, (), "push"), (POS, ("num",), stack, (), "push")]
    if m == "num0":
        return []
    if m == "num":
        return [(DIG, ("num",), stack, (), "push")]
    if m == "str":
        k = mode[1]
        done = (("objC",) if k else (after_value(stack),))
        return [(B('"'), done, stack, (("string", k),), "end"),
                (B("\\"), ("esc", k), stack, (), None),
                (ALLBYTES - {Q, BS}, mode, stack, (), "push")]
    if m == "esc":
        k = mode[1]
        return [(frozenset(ESC), ("str", k), stack, (), "esc"), (B("u"), ("u", k, 0, 0), stack, (), "ustart")]
    if m == "u":
        k, i, big = mode[1:]
        if i < 2:
            return [(B("0"), ("u", k, i + 1, big), stack, (), "hex"), (HEX - B("0"), ("u", k, i + 1, 1), stack, (), "hex")]
        if i == 2:
            return [(HEX, ("u", k, 3, big), stack, (), "hex")]
        return [(HEX, ("str", k), stack, (), "hexany" if big else "hexend")]
    if m == "arr1":
        return [stay, (B("]"), (after_value(stack[:-1]),), stack[:-1], (("end_array",),), None)] + value_start(stack)
    if m == "arrV":
        return [stay] + value_start(stack)
    if m == "arrA":
        return [stay, (B(","), ("arrV",), stack, (), None),
                (B("]"), (after_value(stack[:-1]),), stack[:-1], (("end_array",),), None)]
    if m == "obj1":
        return [stay, (B("}"), (after_value(stack[:-1]),), stack[:-1], (("end_object",),), None),
                (B('"'), ("str", 1), stack, (), "start")]
    if m == "objK":
        return [stay, (B('"'), ("str", 1), stack, (), "start")]
    if m == "objC":
        return [stay, (B(":"), ("objV",), stack, (), None)]
    if m == "objV":
        return [stay] + value_start(stack)
    if m == "objA":
        return [stay, (B(","), ("objK",), stack, (), None),
                (B("}"), (after_value(stack[:-1]),), stack[:-1], (("end_object",),), None)]
    if m == "dead":
        return [(ALLBYTES, mode, stack, (), None)]
    raise KeyError(m)


NUMDONE = ("num", "num0")


def num_follow_ok(b):
    return b not in DIG


def ESCF(c):
    return ESC.get(c, 0)


FNS["json-esc"] = ESCF


class Mon:
    """consumes the text and predicts the value events"""

    def consume(self, E, st, tid, s):
        mode, stack, pend = st.ghost["spec"]
        dom = st.fin[s]
        groups = []
        left = set(dom)
        for bytes_, m2, st2, ev2, act in spec_steps(mode, stack):
            g = frozenset(left & bytes_)
            if g:
                groups.append((g, m2, st2, ev2, act))
                left -= g
        if left:
            groups.append((frozenset(left), ("dead",), (), (), None))
        out = []
        for i, (g, m2, sk2, ev2, act) in enumerate(groups):
            x = st if i == len(groups) - 1 else st.copy()
            if not E.set_dom(x, s, g):
                continue
            term = E.mkterm(x, 8, ("s", s, 8))
            D = x.ghost["D"][1]
            if act == "start":
                D = ()
            elif act == "startpush":
                D = (("b", term),)
            elif act == "push":
                D = D + (("b", term),)
            elif act == "esc":
                D = D + (("b", E.mkterm(x, 8, ("fn", "json-esc", ("s", s, 8)))),)
            elif act == "ustart":
                x.ghost["U"] = C(8, 0)
            elif act in ("hex", "hexend", "hexany"):
                a = E.expr_of(x.ghost["U"])
                u = E.mkterm(x, 8, ("bin", "or", 8, ("bin", "shl", 8, a, ("k", 4)), ("fn", "hexval", ("s", s, 8))))
                if act == "hex":
                    x.ghost["U"] = u
                else:
                    x.ghost["U"] = C(8, 0)
                    D = D + (("b", u if act == "hexend" else ("x", "any")),)
            if m2[0] == "dead":
                D = ()
                x.ghost["U"] = C(8, 0)
                pend2 = ()
                if mode[0] != "dead":
                    x.note("text can no longer be valid: byte(s) %s in state %s" % (show(g), mode[0]))
            else:
                pend2 = pend + ev2
                if mode[0] in NUMDONE and m2[0] not in NUMDONE:
                    pend2 = pend
                x.note("consumed %s -> %s" % (show(g), m2[0]))
            x.ghost["D"] = ("@seq", D)
            x.ghost["spec"] = (m2, sk2, pend2)
            out.append(x)
        return out


def show(g):
    g = sorted(g)
    if len(g) > 8:
        return "%d kinds of byte" % len(g)
    return "/".join(repr(chr(c)) if c < 256 else "END" for c in g)


class Check:
    def __init__(self, prog, delay=2, max_steps=600000, deadline=None):
        self.E = E = Engine(prog, max_steps=max_steps, delay=delay, deadline=deadline)
        models.install(E)
        self.contract = None
        self.learn = None
        self.levels, self.newlevels, self.entry = {}, {}, {}
        self.events = 0
        self.accepts = 0
        self.rejects = 0
        self.contract_uses = 0
        ev = lambda name: (lambda E, st, ins, a, d: self.event(name, st, a))
        E.model(r"^json::Callbacks::(Callbacks|~Callbacks)\(", lambda E, st, ins, a, d: [("ret", st, None)])
        E.model(r"^json::Callbacks::on_boolean\(", ev("bool"))
        E.model(r"^json::Callbacks::on_number\(", ev("number"))
        E.model(r"^json::Callbacks::on_string\(", ev("string"))
        for n in ("begin_array", "end_array", "begin_object", "end_object"):
            E.model(r"^json::Callbacks::%s\(" % n, ev(n))
        E.model(r"^sa_result$", self.result)
        E.hooks["precall"] = self.precall
        E.hooks["head"] = self.fold
        E.hooks["outcome"] = self.outcome

    # fold what was decoded so far into one summary on both sides
    def fold(self, E, st):
        D = st.ghost["D"][1]
        if not D:
            if st.ghost["spec"][0][0] == "dead":
                # contents no longer matter
                for oid, o in list(st.heap.items()):
                    if o.kind == "seq" and any(c[0] == "b" for c in o.seq) and (o.tag == "byte vector" or len(o.seq) >= 2):
                        st.mut(oid).seq = (("G", ("DIFF", 0), UNKLEN),)
            return st
        best = 0
        cand = []
        for oid, o in st.heap.items():
            if o.kind == "seq" and o.life == "live" and o.seq and o.tag in ("byte vector", "string"):
                k = 0
                while k < len(D) and k < len(o.seq) and same_chunk(E, st, D[k], o.seq[k]):
                    k += 1
                if k:
                    cand.append((k, oid))
        k = max([c[0] for c in cand] or [0])
        if k <= 1 and (k == 0 or D[0][0] == "G"):
            if len(D) > 5 or len(D) > 1 and self.differ(E, st, D, k):
                # the program keeps something else than the denoted contents
                st.ghost["D"] = ("@seq", (("G", ("DEC", fresh("d")), UNKLEN),))
                st.lossy("contents that do not follow the text")
                for oid, o in list(st.heap.items()):
                    if o.kind == "seq" and len(o.seq) >= 2 and any(c[0] == "b" for c in o.seq):
                        st.mut(oid).seq = (("G", ("DIFF", 0), UNKLEN),)
            return st
        g = ("G", ("DEC", fresh("d")), UNKLEN)
        st.ghost["D"] = ("@seq", (g,) + D[k:])
        for n, oid in cand:
            if n == k:
                o = st.mut(oid)
                o.seq = (g,) + o.seq[k:]
        return st

    def differ(self, E, st, D, k):
        """does every buffer that could hold the contents already differ from them?"""
        for o in st.heap.values():
            if o.kind == "seq" and o.life == "live" and o.seq and o.tag in ("byte vector", "string"):
                n = 0
                while n < len(D) and n < len(o.seq) and same_chunk(E, st, D[n], o.seq[n]):
                    n += 1
                if n == k and (len(o.seq) <= k or len(D) <= k) and (k or not D[0][0] == "G"):
                    return False
        return True

    def event(self, name, st, a):
        E = self.E
        out = []
        for s in loops.advance(E, st):
            self.events += 1
            mode, stack, pend = s.ghost["spec"]
            if mode[0] == "dead":
                out.append(("ret", s, None))
                continue
            if name == "number":
                out += self.number(s, a)
                continue
            if not pend or pend[0][0] != name:
                E.report("decode", s, "reports %s where the text has %s" % (name, pend[0][0] if pend else "no complete token (state %s)" % mode[0]))
                continue
            want = pend[0]
            if name == "bool":
                for s2, c in E.cmp(s, "eq", a[1][1], a[1], C(a[1][1], want[1])):
                    for s3, t in E.truth(s2, c):
                        if not t:
                            E.report("decode", s3, "reports the wrong boolean")
                        else:
                            self.pop(s3); out.append(("ret", s3, None))
                continue
            if name == "string":
                if not isconst(a[2]):
                    E.give_up(s, "key flag not known")
                    continue
                if (cval(a[2]) & 1) != want[1]:
                    E.report("decode", s, "reports a member name as a value or the other way round")
                    continue
                if not self.same(s, a[1]):
                    continue
            self.pop(s)
            out.append(("ret", s, None))
        return out

    def pop(self, s):
        mode, stack, pend = s.ghost["spec"]
        if pend[0][0] == "string":
            s.ghost["D"] = ("@seq", ())
        s.ghost["spec"] = (mode, stack, pend[1:])

    def same(self, s, v):
        E = self.E
        q = models.seqof(E, s, v, "byte vector")
        if q is None:
            return False
        D = s.ghost["D"][1]
        E.oblige("decode", s)
        if len(q) != len(D) or not all(same_chunk(E, s, x, y) for x, y in zip(D, q)):
            E.report("decode", s, "reports contents that differ from what the text denotes")
            return False
        return True

    def number(self, s, a):
        E = self.E
        mode, stack, pend = s.ghost["spec"]
        if pend:
            E.report("decode", s, "reports a number before %s" % pend[0][0])
            return []
        if mode[0] not in NUMDONE:
            E.report("decode", s, "reports a number where the text has none (state %s)" % mode[0])
            return []
        if not self.same(s, a[1]):
            return []
        out = []
        tid = "text"
        states = [s]
        if mode[0] == "num":
            # the next byte must have been seen not to be a digit
            (s2, v), = E.tape_byte(s, tid, s.tapes[tid].pos)
            states = []
            sy = s2.tapes[tid].cells[0]
            d = s2.fin[sy]
            if d & DIG:
                bad = s2.copy()
                if E.set_dom(bad, sy, d & DIG):
                    E.report("decode", bad, "ends a number although more digits follow")
                if E.set_dom(s2, sy, d - DIG):
                    states = [s2]
            else:
                states = [s2]
        for x in states:
            x.ghost["spec"] = ((after_value(stack),), stack, ())
            x.ghost["D"] = ("@seq", ())
            out.append(("ret", x, None))
        return out

    # ----------------------------------------------------------------
    def precall(self, E, st, ins, fn, args):
        if not fn.dem.startswith("json::Parser::") or not args or args[0][0] != "p":
            return None
        act = [f for f in st.frames if f.fn is fn and f.regs.get(0) == args[0]]
        if not act:
            # the state of the reader when it is entered from outside
            o = st.heap.get(args[0][1])
            if o is not None and not any(f.fn is fn for f in st.frames):
                for (n, off), (base, delta) in self.levels.items():
                    c = o.cells.get(off)
                    if n == fn.name and c is not None and c[1] == base:
                        t = fresh("level")
                        E.assume(st, sym(t))
                        o = st.mut(args[0][1])
                        o.cells[off] = (c[0], L(base[1], add(base[2], scale(sym(t), delta))))
                        st.note("at any nesting depth")
                self.entry[fn.name] = dict(o.cells)
            return None
        self.same_state(st, fn, args)
        self.contract = fn.name
        out = []
        for s in loops.advance(E, st):
            self.contract_uses += 1
            out += self.use_contract(s, ins, fn, args)
        return out

    def same_state(self, st, fn, args):
        """nested values must be read in the state the outer reader started from"""
        E = self.E
        old = self.entry.get(fn.name)
        o = st.heap.get(args[0][1])
        if old is None or o is None:
            return
        for off, (sz, v) in o.cells.items():
            w = old.get(off)
            if w is None or w[1] == v or v[0] not in ("l", "t") or w[1][0] != "l":
                continue
            if v[0] == "l":
                d = sub(v[2], w[1][2])
                if E.ent(st, d) and E.ent(st, scale(d, -1)):
                    continue
                if not d[1] and (fn.name, off) not in self.levels and not w[1][2][1]:
                    self.newlevels[(fn.name, off)] = (w[1], d[0])
                    continue
                if not d[1] and (fn.name, off) in self.levels and self.levels[(fn.name, off)][1] * d[0] > 0:
                    continue
            st.lossy("nested values are read in another state")
            E.give_up(st, "nested values are read in another state")

    def use_contract(self, st, ins, fn, args):
        E = self.E
        if self.learn is None:
            return [("stop", st, None)]
        mode, stack, pend = st.ghost["spec"]
        t = st.tapes["text"]
        if pend and mode[0] != "dead":
            E.report("decode", st, "goes on to the next value before reporting %s" % pend[0][0])
            return []
        out = []
        if mode[0] not in ("arr1", "arrV", "objV", "top", "dead"):
            E.report("accept", st, "reads a value where the grammar has none (state %s)" % mode[0])
            return []
        # failure: no value starts here
        for kind, val in sorted(self.learn["fail"], key=repr):
            f = st.copy()
            f.note("nested value is not valid")
            if mode[0] == "arr1":
                # an empty array is still possible unless excluded
                (f, v), = E.tape_byte(f, "text", f.tapes["text"].pos)
                sy = f.tapes["text"].cells[0]
                d = f.fin[sy]
                alive = d & (WS | B("]"))
                if alive:
                    g = f.copy()
                    if E.set_dom(g, sy, alive):
                        out.append(self.fail_out(g, kind, val))
                if not E.set_dom(f, sy, d - alive):
                    continue
            f.ghost["spec"] = (("dead",), (), ())
            f.ghost["D"] = ("@seq", ())
            out.append(self.fail_out(f, kind, val))
        # success: the text moves on over one value
        for kind, val in sorted(self.learn["ok"], key=repr):
            g = st.copy()
            g.note("nested value read")
            p = sym(fresh("p"))
            t = g.mtape("text")
            old = t.pos
            # the first byte must be able to start a value (or white space before it)
            if 0 in t.cells:
                d = g.fin[t.cells[0]]
                ok = frozenset(d & (WS | frozenset(b for x in value_start(()) for b in x[0]) if mode[0] != "dead" else ALLBYTES))
                if not ok or not E.set_dom(g, t.cells[0], ok):
                    continue
                t = g.mtape("text")
            t.cells = {}
            if not (E.assume(g, sub(p, add(old, ONE))) and E.assume(g, sub(t.len, p))):
                continue
            o = g.mut(args[0][1])
            moved = 0
            for off, (sz, v) in list(o.cells.items()):
                if v[0] == "p" and g.heap.get(v[1]) is not None and g.heap[v[1]].kind == "seq" and v[2] == old:
                    o.cells[off] = (sz, P(v[1], p))
                    moved += 1
            if not moved:
                raise Undecided("no cursor found for a nested value")
            g.mtape("text").pos = p
            if mode[0] != "dead":
                g.ghost["spec"] = ((after_value(stack),), stack, ())
            out.append(("ret", g, None if val is None else C(*val)))
        return out

    def fail_out(self, st, kind, val):
        if kind == "throw":
            return ("throw", st, (val, None))
        return ("ret", st, None if val is None else C(*val))

    # ----------------------------------------------------------------
    def at_end(self, st):
        t = st.tapes["text"]
        return self.E.ent(st, sub(t.pos, t.len))

    def alive(self, st):
        """can the text still be completed to a valid one, given the bytes seen?"""
        mode, stack, pend = st.ghost["spec"]
        t = st.tapes["text"]
        cur = {(mode, stack)}
        k = 0
        while True:
            if k in t.cells:
                d = st.fin[t.cells[k]]
            elif self.E.ent(st, sub(add(t.pos, const(k)), t.len)):
                d = frozenset([END])
            else:
                return bool(cur)
            nxt = set()
            for m, sk in cur:
                if END in d and m[0] in ("end",) + (NUMDONE if not sk else ()):
                    return True
                if m[0] == "dead":
                    continue
                for bytes_, m2, sk2, ev2, act in spec_steps(m, sk):
                    if bytes_ & d:
                        nxt.add((m2, sk2))
                if m[0] in NUMDONE:
                    # the number may end here
                    for bytes_, m2, sk2, ev2, act in spec_steps((after_value(sk),), sk):
                        if bytes_ & d:
                            nxt.add((m2, sk2))
            cur = {c for c in nxt if c[0][0] != "dead"}
            if not cur:
                return False
            k += 1

    def result(self, E, st, ins, a, d):
        out = []
        for s in loops.advance(E, st):
            for s2, ok in E.truth(s, E.trunc(s, a[0], 1) if a[0][0] != "t" else a[0]):
                mode, stack, pend = s2.ghost["spec"]
                E.oblige("accept", s2, "end of the parse")
                if ok:
                    self.accepts += 1
                    if mode[0] == "dead":
                        E.report("accept", s2, "a text that is not valid is accepted")
                    elif mode[0] != "end":
                        E.report("accept", s2, "a text is accepted although it stops in state %s" % mode[0])
                    elif pend:
                        E.report("decode", s2, "the text is accepted without reporting %s" % pend[0][0])
                    elif not self.at_end(s2):
                        E.report("accept", s2, "a text is accepted although more text may follow the value")
                else:
                    self.rejects += 1
                    if mode[0] != "dead" and self.alive(s2):
                        E.report("accept", s2, "a text that can be valid is refused (state %s)" % mode[0])
                out.append(("ret", s2, None))
        return out

    def outcome(self, E, st, kind, val):
        if kind == "throw":
            E.report("accept", st, "the failed parse escapes as an exception (%s)" % (val[0],), "json::Parser::Parser")
        elif kind == "exit":
            E.report("accept", st, "the parse ends the process", "json::Parser::Parser")

    def start(self):
        st = St()
        n = sym("len")
        self.E.assume(st, n)
        self.E.assume(st, sub(const(1 << 61), n))
        st.tapes["text"] = Tape(n)
        self.E.monitors["text"] = Mon()
        s = st.new(Obj("seq", None, tag="the text", attr={"nul": True}, seq=(("T", "text", ZERO, n),)))
        h = st.new(Obj("heap", const(32), "undef", tag="argument", cells={ZERO: (32, ("S", s))}))
        st.ghost["spec"] = (("top",), (), ())
        st.ghost["D"] = ("@seq", ())
        st.ghost["U"] = C(8, 0)
        return st, P(h)

    def learn_pass(self, prog):
        """what the recursive reader returns for scalars: the shapes of success and failure"""
        E = self.E
        fn = prog.one(r"^sa_parse$")
        st, arg = self.start()
        seen = {"ok": set(), "fail": set()}
        rec = {}

        def pre(E, st, ins, fn2, args):
            r = self.precall(E, st, ins, fn2, args)
            return r
        # run once with nested values cut off, watching every member's outcomes
        watch = {}

        def hook(E, s, ins, fn2, args):
            r = self.precall(E, s, ins, fn2, args)
            if r is None and fn2.dem.startswith("json::Parser::") and fn2.defined and fn2.blocks and \
                    not any(f.fn is fn2 for f in s.frames):
                def onret(E, s3, kind, v, f, name=fn2.name):
                    o = []
                    for s4 in loops.advance(E, s3):
                        m = s4.ghost["spec"][0][0]
                        key = "ok" if m == "end" else "fail"
                        shape = ("throw", v[0]) if kind == "throw" else ("ret", None if v is None else (v[1], cval(v)) if isconst(v) else "?")
                        if not (kind == "ret" and m == "dead" and False):
                            watch.setdefault(name, {"ok": set(), "fail": set()})[key].add(shape)
                        o.append((kind, s4, v))
                    return o
                E.push(s, fn2, args, onret=onret)
                return []
            return r
        return hook, watch

    def run(self, prog):
        E = self.E
        fn = prog.one(r"^sa_parse$")
        hook, watch = self.learn_pass(prog)
        E.hooks["precall"] = self.watcher(hook)
        st, arg = self.start()
        E.explore(st, fn, [arg])
        if E.findings:
            return E
        cut = any("budget" in k[2] for k in E.undecided)
        if self.contract is None:
            if cut:
                return E
            raise AnalysisBroken("the parser no longer reads nested values by calling itself")
        self.learn = watch.get(self.contract)
        if not self.learn or not self.learn["ok"]:
            if cut:
                return E
            raise AnalysisBroken("no successful outcome of %s found" % self.contract)
        self.learn = {k: set(x for x in v if x[1] != "?") for k, v in self.learn.items()}
        # second pass with nested values
        E.findings.clear(); E.undecided.clear(); E.heads.clear(); E.checked.clear()
        E.hooks["precall"] = self.precall
        self.contract_uses = self.events = self.accepts = self.rejects = 0
        for round in range(3):
            self.levels.update(self.newlevels)
            self.newlevels = {}
            st, arg = self.start()
            E.explore(st, fn, [arg])
            if not self.newlevels or E.findings:
                return E
            E.heads.clear()
        E.give_up(st, "nested values are read in ever new states")
        return E

    def watcher(self, hook):
        def h(E, st, ins, fn, args):
            m = E.find_model(fn.name, fn.dem)
            if m is not None:
                return None
            n = len(st.frames)
            r = hook(E, st, ins, fn, args)
            if r == [] and len(st.frames) > n:
                return PUSHED
            return r
        return h


PUSHED = [("pushed", None, None)]


def same_chunk(E, st, x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "G":
        return x[1] == y[1]
    if x[0] == "T":
        return x == y
    if x[1] == y[1]:
        return True
    if x[1][0] == "x" or y[1][0] == "x":
        return True
    a, b = E.expr_of(x[1]), E.expr_of(y[1])
    if a is None or b is None:
        return False
    try:
        return E.term_values(st, ("cmp", "eq", 8, a, b)) == {1}
    except Undecided:
        return False


def decide(pid, kinds, tier):
    import properties
    prog = ir.load(["parser"])
    c = Check(prog)
    E = c.run(prog)
    r = properties.Result("abstract interpretation of the JSON parser over every text, in step with a transducer of the documented grammar")
    r.rules = ["every text byte is a symbol over all 256 values and the length is unbounded; loops run to a fixpoint",
               "C03: every access lies in the object it points to and reads initialised bytes",
               "C04: the outcome on each path agrees with the grammar's state after the bytes read",
               "C05: each report to the callbacks carries the type, digits or decoded bytes the grammar's transducer holds"]
    r.add_engine(E, kinds)
    if pid == "C04":
        n = c.accepts + c.rejects
        bad = len(r.findings) + len([f for f in r.undecided])
        r.obligations += n; r.discharged += max(0, n - bad)
        r.extra["outcomes_checked"] = {"accepting": c.accepts, "refusing": c.rejects}
    if pid == "C05":
        bad = len(r.findings) + len([f for f in r.undecided])
        r.obligations += c.events; r.discharged += max(0, c.events - bad)
        r.extra["callback_reports_checked"] = c.events
        import check_tree
        k = check_tree.run()
        r.add_engine(k.E, ("tree", "memory", "uninit"))
        r.extra["trees_checked"] = k.checks
        if not k.checks and not k.E.findings and not k.E.undecided:
            raise AnalysisBroken("no value was put together")
    r.extra["nested_values_read_by"] = c.contract
    return r


if __name__ == "__main__":
    import sys, time
    t = time.time()
    prog = ir.load(["parser"])
    print("load", time.time() - t)
    c = Check(prog)
    E = c.run(prog)
    print("time", time.time() - t, E.stats)
    print("events", c.events, "acc", c.accepts, "rej", c.rejects, "contract", c.contract, c.contract_uses, c.learn)
    print("findings", len(E.findings), "undecided", len(E.undecided), "unmodelled", E.unmodelled)
    for f in list(E.findings.values())[:5]:
        print(f.text())
    for f in list(E.undecided.values())[:5]:
        print(f.text())
