"""C12: every operation of the hash table from every table it can be given, up to a number of buckets.

A table is an arrangement of empty buckets, erased ones and entries in which every entry can be reached from its
own bucket without passing an empty one, the counters are right and one bucket at least is empty.  Keys are
opaque and all different; the hash of a key is opaque but for its remainder by the number of buckets, so that
equal remainders and equal hashes of different keys are both followed.  Each operation is interpreted from every
such table; when it returns, the table must be one of these again and hold exactly what a map would hold."""
import itertools, os, re, time
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import ir, models, loops
from models import ret

LAZY = 8      # arrays of at least this many buckets are followed by relative position only


class Tables:
    def __init__(self, prog):
        self.prog = prog
        E = self.E = Engine(prog, max_steps=1 << 60)
        models.install(E)
        E.dedupe = False
        E.model(r"^sa_hash$", self.hash)
        E.model(r"^sa_visit$", self.visit)
        E.model(r"^sa::Val::Val\(\)$", self.val_new)
        E.model(r"^sa::Val::Val\(sa::Val const&\)$", self.val_copy)
        E.model(r"^sa::Val::~Val\(\)$", self.val_end)
        E.model(r"^sa::Val::operator=\(sa::Val const&\)$", self.val_assign)
        E.model(r"^calloc$", self.calloc)
        E.hooks.update({"memcpy": self.lt_copy, "memset": self.lt_fill, "process": self.process, "xbin": self.xbin, "xcmp": self.xcmp,
                        "lt-load": self.lt_load, "lt-store": self.lt_store, "outcome": self.outcome,
                        "terminate": lambda E, st, d: E.report("map", st, "the process is ended by %s" % d)})
        E.frozen = self.constant_globals()
        self.n_states = 0
        self.check = None
        self.extra_models()
        self.layout()

    pre = "op_"
    what = "HashTable (include/eni/adt/bits/HashTable.tcc)"

    def extra_models(self):
        pass

    # ------------------------------------------------------------ what the program is made of
    def constant_globals(self):
        """variables that are given their value by the compiler and only ever read"""
        cand = {n for n, g in self.prog.globals.items() if not g["const"] and not g["decl"]}

        def used(x, skip):
            if isinstance(x, (list, tuple)):
                if len(x) >= 2 and x[0] == "g" and isinstance(x[1], str):
                    if not skip:
                        cand.discard(x[1])
                else:
                    for y in x:
                        used(y, False)
            elif isinstance(x, dict):
                for y in x.values():
                    used(y, False)
        for f in self.prog.functions.values():
            if f.defined:
                for b in f.blocks:
                    for i in b:
                        for k, v in i.items():
                            if i["o"] == "load" and k == "a":
                                for y in v:
                                    used(y, True)
                            else:
                                used(v, False)
        return cand

    def start(self):
        return St()

    def fn(self, name):
        return self.prog.one("^%s$" % name)

    def value_of(self, name, args=(), st=None):
        """what a small function answers"""
        got = []
        keep, self.check = self.check, lambda st, kind, v: got.append((st, kind, v))
        self.E.explore(st or self.start(), self.fn(name), list(args))
        self.check = keep
        if len(got) != 1 or got[0][1] != "ret":
            raise ir.AnalysisBroken("%s is not followed" % name)
        return got[0][0], got[0][2]

    def layout(self):
        num = lambda n: cval(self.value_of(n)[1])
        self.tsize, self.bsize, self.bhash, self.bentry = num("sa_table_size"), num("sa_bucket_size"), num("sa_bucket_hash"), num("sa_bucket_entry")
        st = self.start()
        self.entry_layout(st, num)
        self.tomb = self.value_of("sa_tombstone")[1]
        self.none = self.value_of("sa_emptybucket")[1]
        e = st.new(Obj("heap", const(64), "unk"))
        t = st.new(Obj("heap", const(self.tsize), "undef"))
        s, _ = self.value_of("sa_poke", [P(t), P(e), C(32, 101), C(32, 102), C(32, 103)], st)
        f = {}
        for off, (sz, v) in s.heap[t].cells.items():
            f[v] = (off, sz)
        try:
            self.f_buckets, self.f_n, self.f_e, self.f_t = f[P(e)][0], f[C(32, 101)][0], f[C(32, 102)][0], f[C(32, 103)][0]
        except KeyError:
            raise ir.AnalysisBroken("the members of the table are not found")
        if self.none != NULL or self.tomb[0] != "p" or not isinstance(self.tomb[1], tuple) or self.tomb[1][0] != "K":
            raise ir.AnalysisBroken("empty and erased buckets are not marked by constants")

    def entry_layout(self, st, num):
        self.esize = num("sa_entry_size")
        e = st.new(Obj("heap", const(self.esize), "unk"))
        self.ekey = self.value_of("sa_entry_key", [P(e)], st.copy())[1][2][0]
        self.evalue = self.value_of("sa_entry_value", [P(e)], st.copy())[1][2][0]

    # ------------------------------------------------------------ opaque keys, hashes and values
    def hash(self, E, st, ins, a, d):
        out = []
        for s, v in E.load(st, a[0], 4, "i32"):
            if v[0] == "u":
                E.report("uninit", s, "the hash of a key that was never set")
                continue
            if v[:2] != ("x", "key"):
                raise Undecided("the hash of something that is not a key")
            out.append(ret(s, ("x", "hash", v[2])))
        return out

    def visit(self, E, st, ins, a, d):
        st.ghost["visited"] = st.ghost.get("visited", ()) + (a[0],)
        if len(st.ghost["visited"]) > 40:
            E.report("map", st, "the walk does not end")
            return []
        return [ret(st)]

    def live_val(self, E, st, p, what):
        """[(state, value)]"""
        out = []
        for s, v in E.load(st, p, 8, "i64"):
            E.oblige("map", s)
            if v[0] == "u":
                E.report("map", s, "%s of a value that was never constructed" % what)
            elif v[:2] != ("x", "val"):
                raise Undecided("a value with unknown contents")
            elif v[2] == "ended":
                E.report("map", s, "%s of a value after its end" % what)
            else:
                out.append((s, v))
        return out

    def val_new(self, E, st, ins, a, d):
        return [ret(s) for s in E.store(st, a[0], ("x", "val", "new"), 8)]

    def val_copy(self, E, st, ins, a, d):
        return [ret(t) for s, v in self.live_val(E, st, a[1], "copy") for t in E.store(s, a[0], v, 8)]

    def val_assign(self, E, st, ins, a, d):
        return [ret(t, a[0]) for s, v in self.live_val(E, st, a[1], "copy") for s2, _ in self.live_val(E, s, a[0], "assignment") for t in E.store(s2, a[0], v, 8)]

    def val_end(self, E, st, ins, a, d):
        return [ret(t) for s, v in self.live_val(E, st, a[0], "end") for t in E.store(s, a[0], ("x", "val", "ended"), 8)]

    def equal(self, st, i, j):
        """whether two keys have the same hash, when that is known"""
        if i == j:
            return True
        cls = self.klass(st, i)
        if j in cls:
            return True
        cj = self.klass(st, j)
        for (x, y, r) in st.ghost.get("hashes", ()):
            if not r and (x in cls and y in cj or x in cj and y in cls):
                return False
        for n in range(1, 64):
            a, b = self.known(st, cls, n), self.known(st, cj, n)
            if a is not None and b is not None and not a[2][1] and not b[2][1] and a != b:
                return False
        return None

    def klass(self, st, i):
        s = {i}
        ch = True
        while ch:
            ch = False
            for (x, y, r) in st.ghost.get("hashes", ()):
                if r and (x in s) != (y in s):
                    s |= {x, y}
                    ch = True
        return s

    def known(self, st, cls, n):
        for i in cls:
            v = st.ghost.get("%s mod %d" % (i, n))
            if v is not None:
                return v
        return None

    def residue(self, E, st, i, n):
        cls = self.klass(st, i)
        v = self.known(st, cls, n)
        if v is not None:
            return [(st, v)]
        out = []
        if n < LAZY:
            for r in range(n):
                s = st.copy()
                s.ghost["%s mod %d" % (i, n)] = C(64, r)
                s.note("the hash of %s is %d modulo %d" % (i, r, n))
                out.append((s, C(64, r)))
            return out
        r = sym(fresh("r"))
        E.assume(st, r)
        E.assume(st, sub(const(n - 1), r))
        st.ghost["%s mod %d" % (i, n)] = L(64, r)
        return [(st, L(64, r))]

    def xbin(self, E, st, op, w, a, b):
        if a[:2] != ("x", "hash") and b[:2] != ("x", "hash"):
            if a[:1] == ("x",) and len(a) > 2 or b[:1] == ("x",) and len(b) > 2:
                raise Undecided("arithmetic with an opaque value")
            return None
        if op == "urem" and isconst(b):
            n = cval(b)
            if n == 0:
                E.report("memory", st, "division by zero")
                return []
            return [(s, L(w, v[2])) for s, v in self.residue(E, st, a[2], n)]
        raise Undecided("arithmetic with a hash")

    def xcmp(self, E, st, p, a, b):
        if a[0] != "x" or b[0] != "x" or len(a) < 3 or len(b) < 3 or a[1] != b[1] or p not in ("eq", "ne"):
            return None
        yes, no = (BTRUE, BFALSE) if p == "eq" else (BFALSE, BTRUE)
        if a[1] == "key":
            return [(st, yes if a[2] == b[2] else no)]
        if a[1] == "hash":
            r = self.equal(st, a[2], b[2])
            if r is not None:
                return [(st, yes if r else no)]
            k = tuple(sorted((a[2], b[2])))
            s = st.copy()
            h = st.ghost.get("hashes", ())
            st.ghost["hashes"] = h + (k + (True,),)
            s.ghost["hashes"] = h + (k + (False,),)
            st.note("%s and %s have the same hash" % k)
            s.note("%s and %s have different hashes" % k)
            # equal hashes have equal remainders
            both = [st]
            for n in range(1, 64):
                u, v = st.ghost.get("%s mod %d" % (a[2], n)), st.ghost.get("%s mod %d" % (b[2], n))
                if u is not None and v is not None and u != v:
                    both = [x for y in both for x, t in E.cmp_lin(y, "eq", sub(u[2], v[2])) if t == BTRUE]
            return [(x, yes) for x in both] + [(s, no)]
        return None

    # ------------------------------------------------------------ memory
    def calloc(self, E, st, ins, a, d):
        n, z = E.lin_of(st, a[0]), E.lin_of(st, a[1])
        if n[1] or z[1]:
            raise Undecided("an array of unknown size")
        n, z = n[0], z[0]
        o = Obj("heap", const(n * z), "zero", tag="the buckets", attr={"by": "malloc"})
        if z == self.bsize and n >= LAZY:
            o.attr.update({"onload": "lt-load", "onstore": "lt-store", "slots": ()})
        return [ret(st, P(st.new(o)))]

    def lt_where(self, E, st, oid, off, size):
        """[(state, index, field, number of the slot or None)]"""
        z = self.bsize
        if any(c % z for _, c in off[1]):
            raise Undecided("a place inside a bucket that is not known")
        f = off[0] % z
        i = (( off[0] - f) // z, tuple((s, c // z) for s, c in off[1]))
        if (f, size) not in ((self.bhash, 4), (self.bentry, 8)):
            raise Undecided("an access to part of a bucket")
        out = []
        rest = [st]
        for k, sl in enumerate(st.heap[oid].attr["slots"]):
            nxt = []
            for s in rest:
                for t, v in E.cmp_lin(s, "eq", sub(i, sl[0][2])):
                    if v == BTRUE:
                        out.append((t, i, f, k))
                    else:
                        nxt.append(t)
            rest = nxt
        return out + [(s, i, f, None) for s in rest]

    def lt_load(self, E, st, oid, off, size, ty):
        st = E.bounds(st, st.heap[oid], off, size, "read")
        if st is None:
            return []
        out = []
        for s, i, f, k in self.lt_where(E, st, oid, off, size):
            if k is None:
                out.append((s, NULL if f == self.bentry else C(32, 0)))
            else:
                out.append((s, s.heap[oid].attr["slots"][k][1 if f == self.bhash else 2]))
        return out

    def lt_store(self, E, st, oid, off, size, val):
        st = E.bounds(st, st.heap[oid], off, size, "write")
        if st is None:
            return []
        out = []
        for s, i, f, k in self.lt_where(E, st, oid, off, size):
            o = s.mut(oid)
            sl = list(o.attr["slots"])
            if k is None:
                k = len(sl)
                sl.append((L(64, i), C(32, 0), NULL))
            x = list(sl[k])
            x[1 if f == self.bhash else 2] = val
            sl[k] = tuple(x)
            o.attr["slots"] = tuple(sl)
            out.append(s)
        return out

    def lt_fill(self, E, st, d, v, n):
        o = st.heap[d[1]]
        if o.attr.get("by") == "malloc" and not o.attr.get("onstore") and v == C(8, 0) and d[2] == ZERO and n == o.size \
                and not n[1] and n[0] % self.bsize == 0 and n[0] >= LAZY * self.bsize:
            st.mut(d[1]).attr.update({"onload": "lt-load", "onstore": "lt-store", "slots": ()})
            return st
        return None

    def lt_copy(self, E, st, d, s, n):
        """whole buckets are copied member by member"""
        if not (st.heap[d[1]].attr.get("onstore") or st.heap[s[1]].attr.get("onload")):
            return None
        if n[1] or n[0] % self.bsize or n[0] > 8 * self.bsize or any(c % self.bsize for _, c in d[2][1] + s[2][1]) or d[2][0] % self.bsize or s[2][0] % self.bsize:
            raise Undecided("a copy of buckets")
        todo = st
        for j in range(0, n[0], self.bsize):
            for f, z, ty in ((self.bhash, 4, "i32"), (self.bentry, 8, "ptr")):
                r = E.load(todo, P(s[1], add(s[2], const(j + f))), z, ty)
                if len(r) != 1:
                    raise Undecided("a copy of buckets")
                r = E.store(r[0][0], P(d[1], add(d[2], const(j + f))), r[0][1], z)
                if len(r) != 1:
                    raise Undecided("a copy of buckets")
                todo = r[0]
        return todo

    # ------------------------------------------------------------ loops
    def process(self, E, st):
        w = loops.canon(E, st)
        h = ("at", hash((w.skel, tuple(w.slots), w.dst.facts)))
        if h in st.lineage:
            E.report("map", st, "this loop never ends")
            return None
        if len(st.lineage) > 400:
            raise Undecided("a loop that is too long")
        st.lineage += (h,)      # the state itself goes on: what was leaked must stay in sight
        return st

    # ------------------------------------------------------------ tables
    def arrangements(self, n):
        """every table of n buckets: [(classes, remainders of the entries)]"""
        for pat in itertools.product("ETL", repeat=n):
            if "E" not in pat:
                continue
            opts = []
            for j, c in enumerate(pat):
                if c == "L":
                    r, ok = j, [j]
                    while pat[(r - 1) % n] != "E":
                        r = (r - 1) % n
                        ok.append(r)
                    opts.append(ok)
            for rs in itertools.product(*opts):
                yield pat, rs

    def build(self, st, pat, rs, who="k"):
        """(object of the table, keys)"""
        n = len(pat)
        t = st.new(Obj("ext", const(self.tsize), "unk", tag="the table"))
        o = st.heap[t]
        keys = []
        if n:
            b = st.new(Obj("heap", const(n * self.bsize), "unk", tag="the buckets", attr={"by": "malloc"}))
            bo = st.heap[b]
            for j, c in enumerate(pat):
                at = j * self.bsize
                if c == "L":
                    k = "%s%d" % (who, len(keys))
                    e = st.new(Obj("heap", const(self.esize), "unk", tag="the entry of %s" % k, attr={"by": "malloc"}))
                    st.heap[e].cells[const(self.ekey)] = (4, ("x", "key", k))
                    st.heap[e].cells[const(self.evalue)] = (8, ("x", "val", k))
                    st.ghost["%s mod %d" % (k, n)] = C(64, rs[len(keys)])
                    keys.append(k)
                    h, v = ("x", "hash", k), P(e)
                else:
                    h, v = ("x", "hash", "stale%s%d" % (who, j)), NULL if c == "E" else self.tomb
                bo.cells[const(at + self.bhash)] = (4, h)
                bo.cells[const(at + self.bentry)] = (8, v)
        o.cells[self.f_buckets] = (8, P(b) if n else NULL)
        for f, v in ((self.f_n, n), (self.f_e, pat.count("L")), (self.f_t, pat.count("T"))):
            o.cells[f] = (4, C(32, v))
        st.note("a table of %d buckets: %s" % (n, " ".join({"E": "empty", "T": "erased", "L": "entry"}[c] for c in pat) or "none"))
        if rs:
            st.note("remainders of the hashes of its keys: %s" % ", ".join("%s: %d" % x for x in zip(keys, rs)))
        return t, keys

    def key(self, st, k):
        return P(st.new(Obj("ext", const(4), "undef", tag="the key", cells={ZERO: (4, ("x", "key", k))}, ro=True)))

    def field(self, E, st, t, f, size):
        c = st.heap[t].cells.get(f)
        if c is None or c[0] != size:
            raise Undecided("the table has a member that is not known")
        return c[1]

    def read(self, E, st, t):
        """what is in a table: {key: (entry, value)} or None after a report; the arrays it owns"""
        bad = lambda m: E.report("map", st, m)
        E.oblige("map", st)
        b, n, e, m = [self.field(E, st, t, f, z) for f, z in ((self.f_buckets, 8), (self.f_n, 4), (self.f_e, 4), (self.f_t, 4))]
        for v in (b, n, e, m):
            if v[0] == "u":
                bad("the table has a member that was never set")
                return None
        if not all(isconst(v) for v in (n, e, m)) or b[0] != "p":
            raise Undecided("the table is not known")
        n, e, m = cval(n), cval(e), cval(m)
        if b == NULL:
            if e or m:
                bad("the table counts %d entries and %d erased buckets but has no buckets" % (e, m))
                return None
            return {}, [], 0
        o = E.obj(st, b[1])
        if o is None or o.life != "live":
            bad("the table keeps buckets that were released")
            return None
        if o.size != const(n * self.bsize) or b[2] != ZERO:
            bad("the table has not as many buckets as it counts")
            return None
        slots = []
        if "slots" in o.attr:
            slots = [(x[0][2], x[1], x[2]) for x in o.attr["slots"]]
        else:
            for j in range(n):
                row = []
                for f, z, ty in ((self.bhash, 4, "i32"), (self.bentry, 8, "ptr")):
                    r = E.load(st.copy(), P(b[1], const(j * self.bsize + f)), z, ty)
                    if len(r) != 1:
                        raise Undecided("a bucket that is not known")
                    row.append(r[0][1])
                slots.append((const(j),) + tuple(row))
        held, places, own = {}, [], [b[1]]
        tombs = 0
        for i, h, v in slots:
            if v == NULL:
                continue
            if v[0] == "u":
                bad("a bucket was never set")
                return None
            if v[0] != "p" or v[0] == "p" and v[1] == NULLOID:
                raise Undecided("a bucket that is not known")
            places.append(i)
            if v == self.tomb:
                tombs += 1
                continue
            x = E.obj(st, v[1]) if not isinstance(v[1], tuple) else None
            if x is None:
                raise Undecided("a bucket that is not known")
            if x.life != "live":
                bad("a bucket holds an entry that was released")
                return None
            k = x.cells.get(const(self.ekey), (0, ("u",)))[1]
            val = x.cells.get(const(self.evalue), (0, ("u",)))[1]
            if k[:2] != ("x", "key") or val[:2] != ("x", "val") or val[2] == "ended":
                bad("an entry without a key and a value is in the table")
                return None
            if h != ("x", "hash", k[2]):
                bad("the hash kept for an entry is not the hash of its key")
                return None
            if k[2] in held:
                bad("a key is in the table twice")
                return None
            held[k[2]] = (v, val, i)
            own.append(v[1])
        if len(held) != e:
            bad("the table counts %d entries and has %d" % (e, len(held)))
            return None
        if tombs != m:
            bad("the table counts %d erased buckets and has %d" % (m, tombs))
            return None
        if len(places) >= n:
            bad("no bucket is left empty: the search for a missing key never ends")
            return None
        same = lambda x, y: not sub(x, y)[1] and sub(x, y)[0] == 0 or E.ent(st, sub(x, y)) and E.ent(st, sub(y, x))
        for k, (v, val, i) in held.items():
            r = self.known(st, self.klass(st, k), n)
            if r is None:
                if n >= LAZY or n > 1:
                    raise Undecided("an entry was placed without its hash")
                r = C(64, 0)
            cur = r[2]
            for _ in range(len(places) + 1):
                if same(cur, i):
                    break
                if not any(same(cur, p) for p in places):
                    bad("an entry cannot be found: an empty bucket lies between the one its hash names and its own")
                    return None
                cur = ZERO if same(cur, const(n - 1)) else add(cur, ONE)
            else:
                raise Undecided("the place of an entry is not known")
        return held, own, n

    def content(self, held):
        return {k: v[1][2] for k, v in held.items()}

    def same_as(self, E, st, t, want, what="the table"):
        """reads a table and compares it with the map it stands for; what it owns, or None"""
        r = self.read(E, st, t)
        if r is None:
            return None
        got = self.content(r[0])
        for k in sorted(want):
            if k not in got:
                E.report("map", st, "an entry of %s is lost" % what)
                return None
            if got[k] != want[k]:
                E.report("map", st, "an entry of %s has the value of another" % what)
                return None
        for k in sorted(got):
            if k not in want:
                E.report("map", st, "%s has an entry that was not put there" % what)
                return None
        return r

    def owned(self, E, st, *owners):
        """all memory that was allocated belongs to exactly one of the tables"""
        seen = set()
        for own in owners:
            for o in own:
                if o in seen:
                    E.report("map", st, "two tables share an entry or their buckets")
                    return
                seen.add(o)
        for oid, o in st.heap.items():
            if o.kind == "heap" and o.life == "live" and oid not in seen:
                E.report("map", st, "%s is never released" % (o.tag if o.tag.startswith("the") else "an entry"))
                return

    def outcome(self, E, st, kind, v):
        if self.check:
            self.check(st, kind, v)

    # ------------------------------------------------------------ operations
    def go(self, st, name, args, then, where, throws=None):
        E = self.E
        self.n_states += 1
        E.heads = {}
        st.lineage = ()
        E.at = "%s of %s" % (where, self.what)

        def check(s, kind, v):
            E.oblige("map", s, where)
            if kind != "ret":
                if throws and kind == "throw" and throws in str(v[0]):
                    v = "throws"
                else:
                    E.report("map", s, "%s throws" % where, where)
                    return
            then(s, v)
        self.check = check
        E.explore(st, self.fn(self.pre + name), args)
        self.check = None

    part = (0, 1)

    def mine(self, n):
        """the arrangements this process looks at"""
        for i, x in enumerate(self.arrangements(n) if n else [((), ())]):
            if i % self.part[1] == self.part[0]:
                yield x

    def states(self, n, keyed):
        """[(state, table, keys, the key looked for)]"""
        for pat, rs in self.mine(n):
            for who in (list(range(len(rs))) + ["K"] if keyed else [None]):
                st = self.start()
                t, keys = self.build(st, pat, rs)
                if who == "K":
                    k = "K"
                    st.note("looking for a key that is not there")
                elif who is not None:
                    k = keys[who]
                    st.note("looking for the key %s" % k)
                else:
                    k = None
                yield st, t, keys, k

    def run_op(self, op, n):
        E = self.E
        ident = {}
        name = op
        rep = lambda s, m: E.report("map", s, m)
        for st, t, keys, k in self.states(n, op in ("find", "cfind", "count", "insert", "erase", "chain", "cchain", "at", "cat", "index", "cindex")):
            if E.findings:
                return
            want = {x: x for x in keys}
            entry = {x: None for x in keys}
            if n:
                b = st.heap[t].cells[self.f_buckets][1][1]
                for off, (sz, v) in st.heap[b].cells.items():
                    if v[0] == "p" and v[1] != NULLOID and not isinstance(v[1], tuple):
                        entry[st.heap[v[1]].cells[const(self.ekey)][1][2]] = v

            def same(s, label, want=want):
                r = self.same_as(E, s, t, want)
                if r is not None:
                    self.owned(E, s, r[1])
                return r
            kp = [self.key(st, k)] if k else []
            present = k in want
            if op in ("find", "cfind"):
                def then(s, v):
                    if v != (entry[k] if present else NULL):
                        rep(s, "find does not find a key that is in the table" if v == NULL else "find finds a key that is not in the table" if not present else "find finds another entry")
                        return
                    same(s, op)
                self.go(st, name, [P(t)] + kp, then, "find")
            elif op in ("at", "cat", "cindex"):
                def then(s, v):
                    if present and v == "throws":
                        rep(s, "at refuses a key that is there")
                        return
                    if v != ("throws" if not present else P(entry[k][1], const(self.evalue))):
                        rep(s, "at does not give the value of the key" if present else "at does not throw for a key that is not there")
                        return
                    s.heap.pop(s.ghost.pop("thrown", (0, None))[1], None)
                    same(s, op)
                self.go(st, name, [P(t)] + kp, then, "at", "out_of_range")
            elif op == "index":
                def then(s, v):
                    r = same(s, op, want if present else dict(want, **{k: "new"}))
                    if r is not None and v != P(r[0][k][0][1], const(self.evalue)):
                        rep(s, "operator[] does not give the value of the key")
                    elif r is not None and present and r[0][k][0] != entry[k]:
                        rep(s, "operator[] replaces the entry of a key that is there")
                self.go(st, name, [P(t)] + kp, then, "operator[]")
            elif op == "count":
                def then(s, v):
                    if not isconst(v):
                        raise Undecided("the count is not known")
                    if cval(v) != int(present):
                        rep(s, "count is %d for a key that is %sin the table" % (cval(v), "" if present else "not "))
                        return
                    same(s, op)
                self.go(st, name, [P(t)] + kp, then, "count")
            elif op == "insert":
                x = st.new(Obj("ext", const(1), "undef", tag="pExist"))

                def then(s, v):
                    c = s.heap[x].cells.get(ZERO)
                    if c is None or not isconst(c[1]) or cval(c[1]) != int(present):
                        rep(s, "insert does not tell that the key was %s" % ("there" if present else "not there"))
                        return
                    r = same(s, op, want if present else dict(want, **{k: "new"}))
                    if r is not None and r[0][k][0] != v:
                        rep(s, "insert does not return the entry of the key")
                        return
                    if r is not None and present and v != entry[k]:
                        rep(s, "insert replaces the entry of a key that is there")
                self.go(st, name, [P(t)] + kp + [P(x)], then, "insert")
            elif op == "erase":
                def then(s, v):
                    if not isconst(v) or cval(v) != int(present):
                        rep(s, "erase does not tell that the key was %s" % ("there" if present else "not there"))
                        return
                    same(s, op, {x: x for x in keys if x != k})
                self.go(st, name, [P(t)] + kp, then, "erase")
            elif op == "clear":
                self.go(st, name, [P(t)], lambda s, v: same(s, op, {}), "clear")
            elif op == "rehash":
                self.go(st, name, [P(t)], lambda s, v: same(s, op), "rehash")
            elif op.startswith("rehash_to"):
                for m in self.sizes:
                    self.go(st.copy(), "rehash_to", [P(t), C(64, m)], lambda s, v: same(s, op), "rehash to %d" % m)
            elif op in ("walk", "cwalk", "chain", "cchain"):
                chain = op.endswith("chain")

                def then(s, v):
                    seen = s.ghost.get("visited", ())
                    names = {e: x for x, e in entry.items()}
                    got = []
                    for p in seen:
                        if p not in names:
                            rep(s, "the walk visits something that is not an entry")
                            return
                        if names[p] in got:
                            rep(s, "the walk visits an entry twice")
                            return
                        got.append(names[p])
                    if chain:
                        if present:
                            if k not in got:
                                rep(s, "the walk over the entries of a key leaves one out")
                                return
                        elif got:
                            rep(s, "the walk over the entries of a missing key visits others")
                            return
                        for x in got:
                            if self.equal(s, x, k) is False:
                                rep(s, "the walk over the entries of a key visits one with another hash")
                                return
                        for x in keys:
                            if present and x not in got and self.equal(s, x, k):
                                rep(s, "the walk over the entries of a key leaves one with the same hash out")
                                return
                    elif set(got) != set(keys):
                        rep(s, "the walk leaves an entry out")
                        return
                    same(s, op)
                self.go(st, name, [P(t)] + kp, then, "the walk over the entries")
            elif op in ("copy", "move"):
                u = st.new(Obj("ext", const(self.tsize), "undef", tag="the new table"))

                def then(s, v):
                    a = self.same_as(E, s, u, want, "the copied table" if op == "copy" else "the moved table")
                    if a is None:
                        return
                    b = self.same_as(E, s, t, want) if op == "copy" else self.read(E, s, t)
                    if b is not None:
                        self.owned(E, s, a[1], b[1])
                self.go(st, name, [P(u), P(t)], then, "construction from another table")
            elif op == "destroy":
                def then(s, v):
                    self.owned(E, s)
                self.go(st, name, [P(t)], then, "the destructor")
            elif op in ("empty", "entries", "buckets", "tombstones", "size"):
                o = st.heap[t].cells
                w = {"size": len(keys), "empty": int(not keys), "entries": len(keys), "buckets": n, "tombstones": cval(o[self.f_t][1])}[op]

                def then(s, v):
                    if not isconst(v) or cval(v) != w:
                        rep(s, "%s is not the number it is said to be" % op)
                self.go(st, name, [P(t)], then, op)
            else:
                raise KeyError(op)

    def targets(self):
        """tables that are assigned to"""
        yield ()
        yield ("E",)
        yield ("E", "L", "T")
        yield ("T", "T", "E")
        yield ("L", "L", "E")

    def run_assign(self, op, n):
        """assignment of every table of n buckets to tables of several kinds, and to itself"""
        E = self.E
        for pat in list(self.targets()) + ["self"]:
            for pat2, rs2 in self.mine(n):
                if E.findings:
                    return
                st = self.start()
                t, keys = self.build(st, pat2, rs2)
                want = {x: x for x in keys}
                if pat == "self":
                    u = t
                else:
                    own = tuple(j for j, c in enumerate(pat) if c == "L")
                    u, _ = self.build(st, pat, own, "d")

                def then(s, v):
                    if v != P(u):
                        E.report("map", s, "the assignment does not return the table it assigned to")
                        return
                    a = self.same_as(E, s, u, want, "the assigned table")
                    if a is None:
                        return
                    if u == t:
                        self.owned(E, s, a[1])
                        return
                    b = self.same_as(E, s, t, want) if op == "assign" else self.read(E, s, t)
                    if b is not None:
                        self.owned(E, s, a[1], b[1])
                self.go(st, op, [P(u), P(t)], then, "assignment")

    def run_construct(self):
        E = self.E
        for m in [None] + list(range(0, 21)) + [36, 37, 38, 67, 1000, 65537, 196613, 1 << 20]:
            st = self.start()
            u = st.new(Obj("ext", const(self.tsize), "undef", tag="the new table"))
            st.note("for %s entries" % ("a number of" if m is None else m))

            def then(s, v):
                r = self.same_as(E, s, u, {}, "the new table")
                if r is not None:
                    self.owned(E, s, r[1])
            self.go(st, "construct_default" if m is None else "construct", [P(u)] + ([] if m is None else [C(64, m)]), then, "construction")


class Maps(Tables):
    """the string map: the same table with texts as keys"""
    pre = "m_"
    what = "StringMap (include/eni/adt/StringMap.h)"

    def extra_models(self):
        E = self.E
        E.model(r"^eni::internal::StringHasher<.*>::operator\(\)\(std::string const&\) const$", self.text_hash)
        E.model(r"^eni::internal::Entry<std::string, sa::Val>::Entry\(std::string const&\)$", self.entry_new)
        E.model(r"^eni::internal::Entry<std::string, sa::Val>::key\(\) const$", self.entry_text)
        E.model(r"^(bool )?std::operator==<char.*>\(std::string const&, std::string const&\)$", self.text_eq)
        E.model(r"^eni::Exception<.*>::Exception\(\)$", lambda E, st, ins, a, d: [ret(st)])

    def entry_layout(self, st, num):
        self.tsize = num("m_map_size")
        self.esize = num("s_size")
        e = st.new(Obj("heap", const(self.esize), "unk"))
        self.evalue = self.value_of("s_cvalue", [P(e)], st.copy())[1][2][0]
        self.ekey = 8 if self.evalue < 8 else 0        # where the models below keep the key

    def text(self, st, k):
        n = sym("length of %s" % k)
        self.E.assume(st, n); self.E.assume(st, sub(const(1 << 60), n))
        return (("G", "text " + k, n),)

    def key(self, st, k):
        q = st.new(Obj("seq", None, tag="the key", attr={"nul": True}, seq=self.text(st, k)))
        return P(st.new(Obj("ext", const(32), "undef", tag="the key", cells={ZERO: (32, ("S", q))}, ro=True)))

    def text_id(self, E, st, p):
        s = E.handle(st, p)
        q = st.heap[s].seq
        if len(q) != 1 or q[0][0] != "G" or not str(q[0][1]).startswith("text "):
            raise Undecided("a key that is not known")
        return q[0][1][5:]

    def text_hash(self, E, st, ins, a, d):
        return [ret(st, ("x", "hash", self.text_id(E, st, a[-1])))]

    def text_eq(self, E, st, ins, a, d):
        return [ret(st, BTRUE if self.text_id(E, st, a[0]) == self.text_id(E, st, a[1]) else BFALSE)]

    def entry_new(self, E, st, ins, a, d):
        k = self.text_id(E, st, a[1])
        out = []
        for s in [st]:
            for t in E.store(s, P(a[0][1], add(a[0][2], const(self.ekey))), ("x", "key", k), 4):
                out += [ret(u) for u in E.store(t, P(a[0][1], add(a[0][2], const(self.evalue))), ("x", "val", "new"), 8)]
        return out

    def entry_text(self, E, st, ins, a, d):
        out = []
        for s, v in E.load(st, P(a[1][1], add(a[1][2], const(self.ekey))), 4, "i32"):
            if v[:2] != ("x", "key"):
                raise Undecided("a key that is not known")
            E.set_handle(s, a[0], self.text(s, v[2]))
            out.append(ret(s))
        return out


MOST = 1 << 28        # buckets


class Sizes:
    """the arithmetic of sizes, for any number of buckets and entries"""

    def __init__(self, tables):
        self.T = tables
        self.prog = tables.prog
        self.engines = []
        self.ops = 0

    def engine(self):
        E = Engine(self.prog, max_steps=400000)
        models.install(E)
        E.frozen = self.T.E.frozen
        E.short_unroll = 60
        E.joins_lossy = True
        self.engines.append(E)
        return E

    def numbers(self, E, st):
        n, e, m = sym("buckets"), sym("entries"), sym("erased")
        E.assume(st, sub(n, ONE)); E.assume(st, sub(const(MOST), n)); E.assume(st, e); E.assume(st, m)
        E.assume(st, sub(n, add(e, m)))
        return n, e, m

    def table(self, st, n, e, m):
        T = self.T
        b = st.new(Obj("ext", scale(n, T.bsize), "unk", tag="the buckets"))
        o = Obj("ext", const(T.tsize), "unk", tag="the table")
        o.cells[T.f_buckets] = (8, P(b))
        for f, v in ((T.f_n, n), (T.f_e, e), (T.f_t, m)):
            o.cells[f] = (4, L(32, v))
        return st.new(o)

    def run(self):
        T = self.T
        grow = [f for f in self.prog.functions.values() if re.search(r"TableImpl<int, .*>::doRehash\(unsigned int\)$", f.dem)]
        if grow:
            for name, asked in (("op_rehash", False), ("op_rehash_to", True)):
                E = self.engine()
                st = St()
                n, e, m = self.numbers(E, st)
                t = self.table(st, n, e, m)
                st.ghost["the table"] = ("@obj", t)
                args = [P(t)]
                if asked:
                    k = sym("asked for")
                    E.assume(st, k); E.assume(st, sub(const((1 << 64) - 1), k))
                    args.append(L(64, k))

                def do(E, st, ins, a, d):
                    E.oblige("map", st)
                    out = []
                    for s, k in E.norm_u(st, 32, E.lin_of(st, a[1])):
                        ok, bad = E.split(s, sub(sub(k, s.heap[t].cells[T.f_e][1][2]), ONE))
                        if bad is not None:
                            E.report("map", bad, "a table is rehashed into fewer buckets than it needs for its entries and one empty bucket")
                        if ok is not None:
                            ok.ghost["rehashed"] = 1
                            out.append(ret(ok))
                    return out
                E.model(r"::doRehash\(unsigned int\)$", do)

                def outcome(E, s, kind, v, asked=asked):
                    E.oblige("map", s, "rehash of any table")
                    if kind != "ret":
                        if not asked:
                            E.report("map", s, "rehash ends by %s" % kind, "rehash")
                    elif not s.ghost.get("rehashed"):
                        x, y, z = [s.heap[t].cells[f][1][2] for f in (T.f_n, T.f_e, T.f_t)]
                        bad = E.split(s, sub(sub(x, add(y, z)), ONE))[1]
                        if bad is not None:
                            E.report("map", bad, "a table without an empty bucket is not rehashed: the search for a missing key never ends", "rehash")
                E.hooks["outcome"] = outcome
                self.ops += 1
                E.explore(st, self.prog.one("^%s$" % name), args)
        E = self.engine()
        st = St()
        lo, hi = sym("asked for"), sym("asked for, upper half")
        for x in (lo, hi):
            E.assume(st, x); E.assume(st, sub(const((1 << 32) - 1), x))
        k = add(lo, scale(hi, 1 << 32))
        u = st.new(Obj("ext", const(T.tsize), "undef", tag="the new table"))
        st.ghost["the table"] = ("@obj", u)

        def calloc(E, st, ins, a, d):
            E.oblige("map", st)
            out = []
            for s, n in E.norm_u(st, 64, E.lin_of(st, a[0])):
                ok, bad = E.split(s, sub(n, ONE))
                if bad is not None:
                    E.report("map", bad, "a table is made with no bucket")
                if ok is not None:
                    b = ok.new(Obj("heap", scale(n, T.bsize), "zero", tag="the buckets", attr={"by": "malloc"}))
                    ok.ghost["n"] = ("@LE", n)
                    ok.ghost["b"] = ("@obj", b)
                    out.append(ret(ok, P(b)))
            return out
        E.model(r"^calloc$", calloc)

        def made(E, s, kind, v):
            E.oblige("map", s, "construction of any size")
            if kind != "ret":
                E.report("map", s, "construction ends by %s" % kind, "construction")
                return
            c = s.heap[u].cells
            b, n = c[T.f_buckets][1], c[T.f_n][1]
            if b == NULL:
                want = ZERO
            elif "b" in s.ghost and b == P(s.ghost["b"][1]):
                want = s.ghost["n"][1]
            else:
                raise Undecided("the buckets of the new table")
            for s2, e in E.norm_u(s, 32, n[2]):
                d = sub(e, want)
                if not (E.ent(s2, d) and E.ent(s2, scale(d, -1))):
                    E.report("map", s2, "a new table counts a different number of buckets than it has", "construction")
        E.hooks["outcome"] = made
        self.ops += 1
        E.explore(st, self.prog.one("^op_construct$"), [P(u), L(64, k)])


class Texts:
    """entries with texts as keys keep the whole text, whatever is in it"""

    def __init__(self, prog):
        self.prog = prog
        self.engines = []
        self.ops = 0

    def engine(self):
        E = Engine(self.prog, max_steps=400000)
        models.install(E)
        for n, f in (("Val\\(\\)", Tables.val_new), ("Val\\(sa::Val const&\\)", Tables.val_copy), ("~Val\\(\\)", Tables.val_end), ("operator=\\(sa::Val const&\\)", Tables.val_assign)):
            E.model("^sa::Val::%s$" % n, lambda E, st, ins, a, d, f=f: f(self, E, st, ins, a, d))
        E.short_unroll = 60
        self.engines.append(E)
        return E
    live_val = Tables.live_val

    def string(self, st, q):
        s = st.new(Obj("seq", None, tag="the key", attr={"nul": True}, seq=tuple(q)))
        return P(st.new(Obj("ext", const(32), "undef", tag="the key", cells={ZERO: (32, ("S", s))}, ro=True)))

    def call(self, E, st, name, args):
        got = []
        E.hooks["outcome"] = lambda E, s, kind, v: got.append((s, kind, v))
        E.heads = {}
        self.ops += 1
        E.explore(st, self.prog.one("^%s$" % name), args)
        out = []
        for s, kind, v in got:
            E.oblige("map", s, name)
            if kind != "ret":
                E.report("map", s, "an entry with a text as its key: %s ends by %s" % (name, kind), name)
            else:
                out.append((s, v))
        return out

    def run(self):
        for n in (0, 1, 2, 3, 7, 8, 9, 31):
            E = self.engine()
            st = St()
            q = tuple(("b", ("t", 8, ("s", E.newfin(st, ALLBYTES, "key"), 8))) for _ in range(n))
            other = tuple(("b", ("t", 8, ("s", E.newfin(st, ALLBYTES, "other"), 8))) for _ in range(1))
            st.note("a key of %d bytes" % n)
            k = self.string(st, q)
            longer = self.string(st, q + other)
            shorter = self.string(st, q[:-1]) if n else None
            v = st.new(Obj("ext", const(8), "undef", tag="a value", cells={ZERO: (8, ("x", "val", "given"))}))
            for s, e in self.call(E, st, "s_make", [k]):
                for s1, r in self.call(E, s.copy(), "s_value", [e]):
                    if not self.live_val(E, s1, r, "use"):
                        continue
                    for s2, _ in self.call(E, s1, "s_set", [e, P(v)]):
                        for w, want in ((k, True), (longer, False), (shorter, False)):
                            if w is None:
                                continue
                            for s3, r in self.call(E, s2.copy(), "s_haskey", [e, w]):
                                for s4, t in E.truth(s3, r):
                                    if t != want:
                                        E.report("map", s4, "an entry does not keep the whole of its key" if want else "an entry takes a longer or shorter text for its key", "Entry::key")
                        x = E.load(s2.copy(), r, 8, "i64") if r[0] == "p" else []
                        for s3, _ in self.call(E, s2, "s_free", [e]):
                            if s3.heap[e[1]].life != "freed":
                                E.report("map", s3, "an entry is not released", "deallocate")
        E = self.engine()
        st = St()
        n = sym("length")
        E.assume(st, n); E.assume(st, sub(const(1 << 60), n))
        k = self.string(st, (("G", "text", n),))
        for s, e in self.call(E, st, "s_make", [k]):
            for s1, _ in self.call(E, s, "s_free", [e]):
                pass


MAPOPS = ["at", "cat", "index", "cindex", "erase", "size", "empty", "walk", "cwalk", "copy", "move", "destroy"]
OPS = ["find", "cfind", "count", "insert", "erase", "clear", "rehash", "rehash_to", "walk", "cwalk", "chain", "cchain",
       "copy", "move", "destroy", "empty", "entries", "buckets", "tombstones"]


ASSIGN = ["assign", "moveassign"]
PROG = {}


def job(what):
    """one process: one operation for some of the arrangements of n buckets"""
    import properties
    kind, op, n, i, of = what
    out = properties.Result()
    if kind in ("sizes", "texts"):
        T = Tables(PROG["hash"])
        x = Sizes(T) if kind == "sizes" else Texts(PROG["hash"])
        x.run()
        for E in x.engines:
            out.add_engine(E, KINDS)
        out.extra["operations on sizes and texts"] = x.ops
        return out
    T = (Tables if kind == "table" else Maps)(PROG["hash"])
    T.sizes = [0, 1, 2, 3, 4, 5, 17]
    T.part = (i, of)
    try:
        if op == "construct":
            T.run_construct()
        elif op in ASSIGN:
            T.run_assign(op, n)
        else:
            T.run_op(op, n)
    except Undecided as u:
        T.E.give_up(St(), str(u))
    out.add_engine(T.E, KINDS)
    out.extra["tables"] = [(kind, op, n, i, T.n_states)]
    return out


KINDS = ("map", "memory", "uninit")


def decide(pid, kinds, tier):
    import properties, jobs
    r = properties.Result("abstract interpretation of every operation from every arrangement of a table of up to %d buckets, with any keys, hash function and values", "bounded")
    most = 4 if tier == "quick" else 5
    r.headline %= most
    r.rules = ["find, count, insert, erase, clear, rehash, walking, copying, moving and assigning do to the entries what they would do to a map from keys to values",
               "a table keeps an empty bucket, counts its entries and its erased buckets, and keeps each entry where a search for it passes",
               "each entry is released once and never lost; no access leaves the buckets; every loop ends",
               "sizes: a table with any number of buckets is rehashed before its last empty bucket is used, and never into fewer buckets than its entries need"]
    r.assumptions += ["memory allocation succeeds", "a table has at most 2^28 buckets",
                      "the hash function gives the same number for equal keys; equality of keys is an equivalence"]
    PROG["hash"] = ir.load(["hash"])
    todo = [("sizes", "", 0, 0, 1), ("texts", "", 0, 0, 1)]
    for kind, ops in (("table", OPS), ("map", MAPOPS)):
        todo.append((kind, "construct", 0, 0, 1))
        for op in ops + ASSIGN:
            for n in range(0, most + 1):
                grows = op in ("insert", "index")
                if grows and n > 4:
                    continue        # growing to 17 buckets leaves too many cases
                of = 1 if n < 4 else (24 if grows else 4) if n == 4 else 16
                todo += [(kind, op, n, i, of) for i in range(of)]
    todo.sort(key=lambda t: (t[1] not in ("insert", "index") or t[2] < 4, -t[2], t))      # what takes long first
    per = {}
    for j, q in jobs.each(job, todo):
        if q is None:
            r.undecided.append(jobs.undecided("%s of %s with %d buckets" % (j[1], j[0], j[2])))
            continue
        r.merge(q)
        if any(f.exact for f in q.findings):
            break
    for kind, op, n, i, k in r.extra.pop("tables", []):
        per["%s %s, %d buckets" % (kind, op, n)] = per.get("%s %s, %d buckets" % (kind, op, n), 0) + k
    r.extra["arrangements followed"] = per
    if not r.obligations:
        raise ir.AnalysisBroken("nothing analysed")
    # what is assumed of the hash function above holds of those the string tables use
    import check_hasher
    hs = ir.load(["hashers"])
    q = properties.Result()
    check_hasher.effects(hs, q, ["SDBM", "ELF"])
    check_hasher.hashers(hs, q, ["SDBM", "ELF"], ("hidden", "endless", "memory", "uninit"))
    r.merge(q)
    seen = set()
    r.findings = [f for f in r.findings if not (f.ident() in seen or seen.add(f.ident()))]
    return r


if __name__ == "__main__":
    import sys
    t0 = time.time()
    prog = ir.load(["hash"])
    print("load %.1f" % (time.time() - t0))
    N = int(sys.argv[1])
    for K, ops in ((Tables, OPS), (Maps, MAPOPS)):
        T = K(prog)
        T.sizes = [0, 1, 2, 3, 4, 5, 17]
        for op in sys.argv[2:] or ops + ["assign", "moveassign", "construct"]:
            for n in range(0, N + 1):
                t1 = time.time(); k = T.n_states
                if op == "construct":
                    if n == 0: T.run_construct()
                elif op in ("assign", "moveassign"):
                    T.run_assign(op, n)
                else:
                    T.run_op(op, n)
                print(K.__name__, op, n, T.n_states - k, "%.2f" % (time.time() - t1), len(T.E.findings), len(T.E.undecided), flush=True)
        for x in (Sizes(T), Texts(prog)) if K is Tables else ():
            x.run()
            for E in x.engines:
                print(type(x).__name__, x.ops, len(E.outcomes), E.stats["steps"], len(E.checked))
                for f in list(E.findings.values())[:5] + list(E.undecided.values())[:3]:
                    print(f.text())
        for f in list(T.E.findings.values())[:3] + list(T.E.undecided.values())[:3]:
            print(f.text())
