"""C15: the scrypt operation, for every length of its text, against the definition of what it hashes and answers."""
import os, re, time
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import ir, models, loops, check_ops
from models import ret, seqof, freshlen
from check_ops import PUSHED
import check_hex       # hexhi, hexlo

HEX = check_hex.HEX
FNS.setdefault("hexval", lambda v: int(chr(v), 16) if v in HEX else 0)
FNS["lowered"] = lambda v: v + 32 if 65 <= v <= 90 else v
LIMIT = 160


class Scrypt(check_ops.Ops):
    """one exported function of the operation, for texts of one length"""

    def __init__(self, prog, n, **kw):
        self.n = n
        super().__init__(prog, max_steps=2000000, **kw)
        E = self.E
        E.hooks["head"] = self.head
        E.hooks["find_not_of"] = self.find_not_of
        E.keep_quotients = E.positions_matter = True
        E.short_unroll = 300

    # ------------------------------------------------------------ what it is given
    def kind(self, E, st, ins, a, d):
        where = cval(a[0])
        st.ghost["args"] = st.ghost.get("args", ()) + ((where, check_ops.ARRAY if where == 0 else check_ops.STRING),)
        return [ret(st, C(32, check_ops.ARRAY if where == 0 else check_ops.STRING))]

    def install(self):
        super().install()
        self.E.model(r"^sa_more$", self.more)

    def more(self, E, st, ins, a, d):
        k = st.ghost.get("asked_more", 0)
        st.ghost["asked_more"] = k + 1
        return [ret(st, C(1, 1 if k == 0 else 0))]

    def parser_ctor(self, E, st, ins, a, d):
        r = super().parser_ctor(E, st, ins, a, d)
        return [x for x in r if x[1].ghost.get("parser")]        # C02 and C09 look at the other case

    def text(self, E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        if self.n is None:
            k = freshlen(E, st)
            E.assume(st, sub(k, const(LIMIT + 1)))
            q = (("G", "long text", k, "nonul"),)
            st.note("a text of more than %d digits" % LIMIT)
        else:
            q = tuple(("b", ("t", 8, ("s", E.newfin(st, ALLBYTES, "digit"), 8))) for i in range(self.n))
            st.note("a text of %d byte(s)" % self.n)
        st.mut(s).seq = q
        st.ghost["text"] = ("@seq", q)
        return [ret(st)]

    def find_not_of(self, E, st, q, setb, a, d):
        if self.n is None:
            if setb == HEX and q == st.ghost["text"][1]:
                no = st.copy()
                st.ghost["bad"] = 1
                k = freshlen(E, st)
                E.assume(st, sub(sub(q[0][2], k), const(1)))
                return [ret(no, C(64, (1 << 64) - 1)), ret(st, L(64, k))]
            return None
        if not all(c[0] == "b" and c[1][0] == "t" and c[1][2][0] == "s" for c in q) or st.ghost.get("bad") or not (isconst(a[2]) and cval(a[2]) <= len(q)):
            return None
        i0 = cval(a[2])
        q = q[i0:]
        no = st.copy()
        ok = all(no.fin[c[1][2][1]] & setb for c in q)
        out = []
        if ok:
            for c in q:
                s = c[1][2][1]
                no.fin[s] = frozenset(no.fin[s] & setb)
            out.append(ret(no, C(64, (1 << 64) - 1)))
        doms = [st.fin[c[1][2][1]] - setb for c in q]
        if any(doms):
            st.ghost["bad"] = 1 if not any(x & HEX for x in doms) else 2
            st.note("some byte is not one of %d" % len(setb))
            if all(doms):
                k = freshlen(E, st)
                E.assume(st, sub(k, const(i0)))
                if E.assume(st, sub(const(i0 + len(q) - 1), k)):
                    out.append(ret(st, L(64, k)))
            else:
                k = [i for i, x in enumerate(doms) if x][0]
                out.append(ret(st, C(64, i0 + k)))
        return out

    # ------------------------------------------------------------ what is expected
    def nibbles(self, st):
        t = [c[1][2] for c in st.ghost["text"][1]]
        v = [("fn", "hexval", x) for x in t]
        return ([("k", 0)] if len(t) % 2 else []) + v

    def block(self, st):
        v = self.nibbles(st)
        out = []
        for i in range(80):
            if 2 * i + 1 < len(v):
                out.append(v[2 * i + 1] if v[2 * i] == ("k", 0) else ("bin", "or", 8, ("bin", "shl", 8, v[2 * i], ("k", 4)), v[2 * i + 1]))
            else:
                out.append(("k", 0))
        return out

    def digits(self, st):
        out = []
        for c in st.ghost["digest"][1]:
            x = c[1][2]
            out += [("fn", "hexhi", x), ("fn", "hexlo", x)]
        return out

    def equal(self, E, st, v, x):
        y = E.expr_of(v) if v[0] in ("l", "t") else None
        if y is None:
            return None
        if y == x:
            return True
        c = ("cmp", "eq", 8, y, x)
        ss = esyms(c)
        for pick in (min, max):
            if not ev(c, {s: pick(st.fin[s]) for s in ss}):
                return False
        try:
            return E.term_values(st, c) == {1}
        except Undecided:
            return None

    # ------------------------------------------------------------ loop heads: forget how digits were told apart
    def head(self, E, st):
        if "text" not in st.ghost or self.n is None:
            return st
        syms = [c[1][2][1] for c in st.ghost["text"][1]]
        dsyms = [c[1][2][1] for c in st.ghost["digest"][1]] if "digest" in st.ghost else []
        narrow = {s for s in syms if st.fin[s] < HEX} | {s for s in dsyms if st.fin[s] < ALLBYTES}
        if not narrow:
            return st
        blk = self.block(st)
        dig = self.digits(st) if dsyms else []
        one = any(len(st.fin[s]) == 1 for s in narrow)
        mention = set()

        def fix(v, x, j):
            """v, or a canonical form of it"""
            if v[0] not in ("l", "t") or v[1] != 8 or v[0] == "l" and not isconst(v):
                return v
            have = set(esyms(v[2])) if v[0] == "t" else set()
            if not (have & narrow or x is not None and x[0] != "k" and narrow & set(esyms(x))):
                return v
            if x is not None and self.equal(E, st, v, x):
                return ("t", 8, x) if x[0] != "k" else v
            if v[0] == "t":
                ss = esyms(v[2])
                if len(ss) == 1 and ss[0] in narrow and v[2][0] != "s":
                    s = ("s", ss[0], 8)
                    for y in (("fn", "hexval", s), ("fn", "lowered", s), s, ("bin", "shl", 8, ("fn", "hexval", s), ("k", 4))) if ss[0] in syms else (("fn", "hexhi", s), ("fn", "hexlo", s), s):
                        if self.equal(E, st, v, y):
                            return ("t", 8, y)
                if len(ss) == 2 and set(ss) <= set(syms):
                    for p, q in (ss, ss[::-1]):
                        y = ("bin", "or", 8, ("bin", "shl", 8, ("fn", "hexval", ("s", p, 8)), ("k", 4)), ("fn", "hexval", ("s", q, 8)))
                        if self.equal(E, st, v, y):
                            return ("t", 8, y)
                if v[2][0] != "s" and not v[2][0] == "fn":
                    mention.update(ss)
                elif v[2][0] == "fn" and v[2][1] not in ("hexval", "lowered", "hexhi", "hexlo"):
                    mention.update(ss)
            return v
        for oid, o in list(st.heap.items()):
            if o.life != "live" or o.kind == "global":
                continue
            if o.kind == "seq":
                want = dig if dsyms else blk
                q = tuple(("b", fix(c[1], want[j] if j < len(want) else None, j)) if c[0] == "b" else c for j, c in enumerate(o.seq))
                if q != o.seq:
                    st.mut(oid).seq = q
                continue
            new = {}
            for off, (sz, v) in o.cells.items():
                if sz == 1 and not off[1]:
                    x = blk[off[0]] if o.size is not None and 0 <= off[0] < 80 else None
                    if o.size is not None and dig and 0 <= off[0] < 64 and not self.equal(E, st, v, x if x is not None else ("k", 256)):
                        x = dig[off[0]]
                    w = fix(v, x, off[0])
                    if w != v:
                        new[off] = (sz, w)
                elif v[0] == "t":
                    mention.update(esyms(v[2]))
            if new:
                st.mut(oid).cells.update(new)
        for f in st.frames[-1:]:
            ins = f.fn.blocks[f.blk][f.idx]
            for r in loops.live_regs(f.fn, f.blk, f.idx, True, ins.get("d")):
                v = f.regs.get(r)
                if v is not None and v[0] == "t":
                    mention.update(esyms(v[2]))
        if one or mention & narrow:
            st.lossy("which digits were seen is forgotten")
        for s in narrow:
            st.fin[s] = HEX if s in syms else ALLBYTES
        return st

    # ------------------------------------------------------------ the hash
    def scrypt(self, E, st, ins, a, d):
        E.oblige("scrypt", st)
        for p, n in ((a[0], 80), (a[1], 32)):
            o = E.deref(st, p, n, "access by the hash")
            if o is None or E.bounds(st, o, p[2], n, "access by the hash") is None:
                return []
        if st.ghost.get("digest"):
            E.report("scrypt", st, "the hash is computed twice")
            return []
        if self.n is None:
            E.report("scrypt", st, "a text of more than %d digits is hashed" % LIMIT)
            return []
        want = self.block(st)
        E.oblige("uninit", st)
        for i in range(80):
            r = E.load(st, P(a[0][1], add(a[0][2], const(i))), 1, "i8")
            if len(r) != 1:
                raise Undecided("byte %d of the block" % i)
            st, v = r[0]
            if v[0] == "u":
                E.report("uninit", st, "byte %d of the hashed block is not initialised" % i)
                return []
            e = self.equal(E, st, v, want[i])
            if e is None:
                raise Undecided("byte %d of the hashed block" % i)
            if not e:
                if any(not st.fin[c[1][2][1]] <= HEX for c in st.ghost["text"][1]):
                    E.report("scrypt", st, "a text with a byte that is not a hexadecimal digit is hashed")
                else:
                    E.report("scrypt", st, "byte %d of the hashed block is not what the text denotes (text of %d digits)" % (i, self.n))
                return []
        vals = [("t", 8, ("s", E.newfin(st, ALLBYTES, "hash"), 8)) for i in range(32)]
        s = E.fill_bytes(st, a[1], C(8, 0), const(32))
        if s is None:
            return []
        o = s.mut(a[1][1])
        for co in list(o.cells):
            r = sub(co, a[1][2])
            if not r[1] and -o.cells[co][0] < r[0] < 32:
                del o.cells[co]
        if o.kind == "seq":
            if a[1][2] != ZERO or len(o.seq) < 1:
                raise Undecided("digest written into the middle of a text")
            n = E.seq_len(s, o.seq)
            o.seq = tuple(("b", v) for v in vals) + ((("G", fresh("any"), sub(n, const(32))),) if n != const(32) else ())
        else:
            for i, v in enumerate(vals):
                o.cells[add(a[1][2], const(i))] = (1, v)
        s.ghost["digest"] = ("@seq", tuple(("b", v) for v in vals))
        return [ret(s)]

    # ------------------------------------------------------------ what it answers
    def printed(self, E, st, v, os, d):
        name = "sa_examine" if d.startswith("json::Value::") else "sa_examine_array"
        if d.startswith("json::Object::"):
            E.report("scrypt", st, "what is printed is not a list")
            return []
        fn = self.prog.functions[name]

        def done(E, s, kind, x, f):
            if kind == "ret":
                return [(kind, s2, None) for s2 in self.emit_printed(E, s, os)]
            return [(kind, s, x)]
        E.push(st, fn, [v], onret=done)
        return PUSHED

    def outcome(self, E, st, kind, val):
        g = st.ghost
        name = "%s_%s" % (g["opname"], g["what"])
        if kind != "ret" or g.get("parser") == 0:
            return              # C02, C09
        E.oblige("scrypt", st, name)
        null = val[0] == "p" and val[1] == NULLOID
        o = st.heap.get(val[1]) if val[0] == "p" and not null else None
        if g["what"] == "gas":
            c = o.cells.get(ZERO) if o is not None else None
            if c is None or c[0] != 8:
                E.give_up(st, "the gas that is returned")
                return
            refused = isconst(c[1]) and cval(c[1]) == check_ops.REFUSAL
        else:
            refused = null
        if self.n is None or self.n > LIMIT:
            if not refused:
                E.report("scrypt", st, "%s accepts a text of more than %d digits" % (name, LIMIT), name)
            return
        doms = [st.fin[c[1][2][1]] for c in g["text"][1]]
        # a text of digits only is among those this outcome stands for
        digits = all(x & HEX for x in doms) and g.get("bad") != 1
        if refused:
            if digits:
                E.report("scrypt", st, "%s refuses a text of %d hexadecimal digits" % (name, self.n), name)
            return
        if g.get("bad") or any(not x <= HEX for x in doms):
            E.report("scrypt", st, "%s accepts a text with a byte that is not a hexadecimal digit" % name, name)
            return
        if g["what"] == "gas":
            want = (self.n + 1) // 2 * 10
            v = E.simp(st, c[1])
            if not isconst(v):
                E.give_up(st, "gas of a text of %d digits" % self.n)
            elif cval(v) != want:
                E.report("scrypt", st, "%s is %d for a text of %d digits, not %d" % (name, cval(v), self.n, want), name)
            return
        if "digest" not in g:
            E.report("scrypt", st, "%s answers without hashing" % name, name)
            return
        got = [x[1] for x in g.get("seen", ())]
        if len(got) != 1 or not got[0] or got[0][0][0] == "other":
            E.report("scrypt", st, "%s does not answer one text" % name, name)
            return
        q, want = got[0], self.digits(st)
        if not all(c[0] == "b" for c in q):
            E.give_up(st, "the digest that is printed")
            return
        if len(q) != 64:
            E.report("scrypt", st, "%s answers %d bytes" % (name, len(q)), name)
            return
        for i, c in enumerate(q):
            e = self.equal(E, st, c[1], want[i])
            if e is None:
                E.give_up(st, "digit %d of the answer" % i)
                return
            if not e:
                E.report("scrypt", st, "digit %d of the answer of %s is not that of the digest" % (i, name), name)
                return

    def run(self):
        E = self.E
        E.hooks["gbyte"] = lambda E, st, *a: [(st, ("t", 8, ("s", E.newfin(st, ALLBYTES), 8)))]
        done = []
        for what in ("gas", "run"):
            fn = self.prog.one(r"^scrypt_%s$" % what)
            E.heads.clear()
            E.stop_at = None
            E.max_steps = E.stats["steps"] + 2000000
            st, arg = self.start("scrypt", what)
            E.explore(st, fn, [arg])
            done.append(len(E.outcomes))
        return done


class Hash:
    """the hash itself: every access inside its buffers, and the whole block given to SHA-256 each time"""

    def __init__(self, prog):
        self.prog = prog
        self.E = E = Engine(prog, max_steps=3000000)
        models.install(E)
        E.positions_matter = True
        E.big_unroll = 70
        E.coarse = 4096
        E.model(r"^SHA256_Init$", self.init)
        E.model(r"^SHA256_Update$", self.update)
        E.model(r"^SHA256_Final$", self.final)
        E.model(r"^SHA256$", self.oneshot)
        self.calls = {}

    def count(self, d):
        self.calls[d] = self.calls.get(d, 0) + 1

    def ctx(self, E, st, v, d):
        o = E.deref(st, v, 112, d)
        if o is None or E.bounds(st, o, v[2], const(112), d) is None:
            return None
        c = o.cells.get(v[2])
        if c is None or c[0] != 112:
            if o.init == "undef" and not any(not sub(k, v[2])[1] and 0 <= sub(k, v[2])[0] < 112 for k in o.cells):
                E.report("scrypt", st, "%s on a state that was not initialised" % d)
                return None
            raise Undecided("%s on a state that is not followed" % d)
        return c[1][1][1]

    def put(self, st, v, content):
        o = st.mut(v[1])
        for k in list(o.cells):
            r = sub(k, v[2])
            if not r[1] and -o.cells[k][0] < r[0] < 112:
                del o.cells[k]
        o.cells[v[2]] = (112, ("x", ("sha", content)))

    def init(self, E, st, ins, a, d):
        self.count(d)
        o = E.deref(st, a[0], 112, d)
        if o is None or E.bounds(st, o, a[0][2], const(112), d) is None:
            return []
        self.put(st, a[0], ())
        return [ret(st, C(32, 1))]

    def data(self, E, st, p, n, d):
        """what is given to the hash: the part of the block, or None for anything else; False after a report"""
        o = E.deref(st, p, 1, "what is hashed")
        if o is None:
            return False
        if n[1]:
            raise Undecided("%s of a length that is not constant" % d)
        s = E.bounds(st, o, p[2], n, "what is hashed")
        if s is None:
            return False
        if o.attr.get("block"):
            if p[2][1]:
                raise Undecided("%s of a part of the block that is not constant" % d)
            return (p[2][0], p[2][0] + n[0])
        if n[0] <= 128 and not p[2][1]:
            own = []
            for i in range(n[0]):
                r = E.load(st, P(p[1], add(p[2], const(i))), 1, "i8")
                if len(r) == 1 and r[0][1][0] == "u":
                    E.report("uninit", st, "byte %d of what is hashed is not initialised" % i)
                    return False
                if len(r) == 1 and r[0][1][0] == "x" and r[0][1][1][0] == "in":
                    own.append(r[0][1][1][1])
            if own:
                if len(own) == n[0] and own == list(range(own[0], own[0] + n[0])):
                    return (own[0], own[-1] + 1)
                raise Undecided("%s of parts of the block" % d)
        return None

    def update(self, E, st, ins, a, d):
        self.count(d)
        E.oblige("scrypt", st)
        c = self.ctx(E, st, a[0], d)
        if c is None:
            return []
        x = self.data(E, st, a[1], E.lin_of(st, a[2]), d)
        if x is False:
            return []
        if x is not None and c and c[-1][1] == x[0]:
            c = c[:-1] + ((c[-1][0], x[1]),)
        elif x is not None:
            c = c + (x,)
        self.put(st, a[0], c)
        return [ret(st, C(32, 1))]

    def whole(self, E, st, c):
        for x in c:
            if x != (0, 80):
                E.report("scrypt", st, "the hash is given bytes %d to %d of the block instead of all 80" % (x[0], x[1]))
                return False
        return True

    def digest(self, E, st, p):
        o = E.deref(st, p, 1, "digest")
        if o is None:
            return []
        s = E.fill_bytes(st, p, C(8, 0), const(32))
        if s is None:
            return []
        o = s.mut(p[1])
        for k in list(o.cells):
            r = sub(k, p[2])
            if not r[1] and -o.cells[k][0] < r[0] < 32:
                del o.cells[k]
        if p[2][1]:
            o.init = "unk"
        else:
            for i in range(32):
                o.cells[add(p[2], const(i))] = (1, ("x", ("digest",)))
        return [s]

    def final(self, E, st, ins, a, d):
        self.count(d)
        E.oblige("scrypt", st)
        c = self.ctx(E, st, a[1], d)
        if c is None or not self.whole(E, st, c):
            return []
        if any(True for x in c):
            st.ghost["hashed"] = st.ghost.get("hashed", 0) + 1
        r = self.digest(E, st, a[0])
        for s in r:
            o = s.mut(a[1][1])
            o.cells.pop(a[1][2], None)
            o.cells[a[1][2]] = (112, ("x", ("sha", ())))
        return [ret(s, C(32, 1)) for s in r]

    def oneshot(self, E, st, ins, a, d):
        self.count(d)
        E.oblige("scrypt", st)
        x = self.data(E, st, a[0], E.lin_of(st, a[1]), d)
        if x is False or x is not None and not self.whole(E, st, (x,)):
            return []
        return [ret(s, a[2]) for s in self.digest(E, st, a[2])]

    def run(self):
        E = self.E
        fn = self.prog.one(r"^scrypt_1024_1_1_256\(")
        st = St()
        i = st.new(Obj("ext", const(80), "unk", tag="the block", ro=True, attr={"block": 1}))
        for k in range(80):
            st.heap[i].cells[const(k)] = (1, ("x", ("in", k)))
        o = st.new(Obj("ext", const(32), "undef", tag="the digest"))
        n0 = len(E.checked)

        def outcome(E, s, kind, val):
            E.oblige("scrypt", s, fn.dem)
            if kind != "ret":
                E.report("scrypt", s, "the hash ends by %s" % kind, fn.dem)
                return
            for k in range(32):
                r = E.load(s, P(o, const(k)), 1, "i8")
                if any(v[0] == "u" for _, v in r):
                    E.report("scrypt", s, "byte %d of the digest is never written" % k, fn.dem)
                    return
        E.hooks["outcome"] = outcome
        E.explore(st, fn, [P(i), P(o)])
        return len(E.outcomes)


def lengths(what):
    """one process: the operation for some lengths of its text"""
    import properties
    prog = PROG["op"]
    out = properties.Result()
    per = {}
    for n in what:
        if n == "hash":
            h = Hash(PROG["hash"])
            k = h.run()
            out.add_engine(h.E, KINDS)
            out.extra["calls of SHA-256"] = sorted("%s: %d" % x for x in h.calls.items())
            out.extra["outcomes of the hash"] = [k]
            continue
        c = Scrypt(prog, n)
        per[show(n)] = c.run()
        out.add_engine(c.E, KINDS)
        if any(f.exact for f in out.findings):
            break
    out.extra["lengths"] = sorted(per, key=lambda x: (len(x), x))
    return out


KINDS = ("scrypt", "memory", "uninit")
PROG = {}       # loaded before the processes are made


def decide(pid, kinds, tier):
    import properties, jobs as procs
    r = properties.Result("abstract interpretation of the operation for every length of its text with any bytes in it, and of the hash for any block")
    r.rules = ["a text is hashed exactly when it has at most %d bytes and all are hexadecimal digits; otherwise the refusal is given" % LIMIT,
               "the block is the decoded bytes (an odd text reads as if preceded by 0) followed by zeros, all initialised",
               "the answer is one text: the 64 lowercase digits of the 32 bytes of the digest", "gas is ten for each byte, rounded up",
               "every access stays inside its buffer; SHA-256 is always given all 80 bytes of the block, on an initialised state"]
    r.assumptions.append("SHA-256 of the cipher library; the mixing function of scrypt itself is not compared with its definition (the vectors of the test suite settle it)")
    PROG["op"], PROG["hash"] = ir.load(check_ops.BASE + ["escrypt"]), ir.load(["scrypt"])
    part = os.environ.get("SA_PART", "")       # when working on the check itself
    todo = [None, LIMIT + 1, LIMIT + 2] + list(range(LIMIT, -1, -1))
    jobs = [["hash"]] if part != "op" else []
    jobs += [todo[i:i + 3] for i in range(0, len(todo), 3)] if part != "hash" else [[0]]
    for j, q in procs.each(lengths, jobs):
        if q is None:
            r.undecided.append(procs.undecided("the lengths %s" % j))
            continue
        r.merge(q)
        if any(f.exact for f in q.findings):
            break
    n = len(r.extra.get("lengths", ()))
    r.extra["lengths"] = n
    if not r.obligations or not n:
        raise ir.AnalysisBroken("nothing analysed")
    seen = set()
    r.findings = [f for f in r.findings if not (f.ident() in seen or seen.add(f.ident()))]
    return r


def show(n):
    return "more than %d" % LIMIT if n is None else str(n)


if __name__ == "__main__":
    import sys
    t = time.time()
    if len(sys.argv) == 1 or sys.argv[1] == "hash":
        if len(sys.argv) == 1:
            r = decide("C15", KINDS, "quick")
        else:
            h = Hash(ir.load(["scrypt"])); print(h.run(), h.calls, h.E.stats); import properties; r = properties.Result(); r.add_engine(h.E)
        print(r.obligations, r.discharged, r.extra, "%.1fs" % (time.time() - t))
        for f in r.findings[:5]: print(f.text())
        for f in r.undecided[:5]: print("UND", f.text())
        sys.exit()
    prog = ir.load(check_ops.BASE + ["escrypt"])
    print("load", time.time() - t)
    for n in [None if x == "long" else int(x) for x in sys.argv[1:]]:
        t = time.time()
        c = Scrypt(prog, n)
        d = c.run()
        print(show(n), "outcomes", d, c.E.stats["steps"], "%.1fs" % (time.time() - t))
        for f in list(c.E.findings.values())[:4]: print(f.text())
        for f in list(c.E.undecided.values())[:4]: print("UND", f.text())
