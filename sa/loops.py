"""Fixpoint at loop heads: canonical states, subsumption up to renaming, joins by
affine acceleration and generalisation."""
import itertools
import lin
from lin import const, sym, add, sub, scale, entails, ZERO, subst
from engine import *

U32, U64 = (1 << 32) - 1, (1 << 64) - 1

_ids = itertools.count(1)
_livecache = {}
BIG_UNROLL = 300


def live_regs(fn, blk, idx, top, dest):
    k = (fn, blk, idx, top)      # two tools have a main each
    r = _livecache.get(k)
    if r is None:
        if top:
            r = sorted(fn.live_after(blk, idx - 1))
        else:
            s = fn.live_after(blk, idx)
            s.discard(dest)
            r = sorted(s)
        _livecache[k] = r
    return r


class Walk:
    """one traversal of a state: rebuilds it with slot expressions mapped by `fl`,
    dropping dead registers and unreachable objects, and records the skeleton"""

    def __init__(self, E, st, fl=None):
        self.E = E; self.src = st
        self.slots = []; self.fins = []; self.finno = {}; self.gids = {}; self.objno = {}; self.queue = []
        self.fl = fl
        self.ptrslots = []   # (tape id or None, LE) of pointers into texts, and integers
        n = St()
        n.facts = st.facts; n.exact = st.exact; n.why = st.why; n.exc = st.exc
        n.lineage = st.lineage; n.trail = st.trail; n.visits = dict(st.visits)
        self.dst = n
        sk = [st.exact]
        for i, f in enumerate(st.frames):
            top = i == len(st.frames) - 1
            ins = f.fn.blocks[f.blk][min(f.idx, len(f.fn.blocks[f.blk]) - 1)]
            g = f.copy()
            g.regs = {}
            rs = []
            for r in live_regs(f.fn, f.blk, f.idx, top, ins.get("d")):
                if r in f.regs:
                    v, s = self.value(f.regs[r])
                    g.regs[r] = v
                    rs.append((r, s))
            n.frames.append(g)
            data, ds = self.value(f.data) if f.data is not None else (None, None)
            g.data = data
            sk.append((f.fn.name, f.blk, f.idx, tuple(rs), ds))
        gs = []
        for k in sorted(st.ghost):
            v, s = self.value(st.ghost[k])
            n.ghost[k] = v
            gs.append((k, s))
        sk.append(tuple(gs))
        if st.exc is not None and st.exc[1] is not None:
            self.ref(st.exc[1])
        ts = []
        for tid in sorted(st.tapes):
            t = st.tapes[tid].copy()
            t.len = self.slot(t.len)
            t.pos = self.slot(t.pos)
            cs = []
            for k in sorted(t.cells):
                cs.append((k, self.fin(t.cells[k])))
            n.tapes[tid] = t
            ts.append((tid, tuple(cs), t.floor))
        sk.append(tuple(ts))
        qi = 0
        os_ = []
        while qi < len(self.queue):
            oid = self.queue[qi]
            qi += 1
            o = E.obj(st, oid)
            if o is None:
                os_.append((qi, "gone"))
                continue
            if o.kind == "global" and o.ro:
                n.heap[oid] = o
                os_.append((qi, o.tag))
                continue
            p = o.copy()
            p.cells = {}
            cs = []
            for off in sorted(o.cells, key=lambda e: (len(e[1]), e[0] if not e[1] else 0, repr(e))):
                sz, v = o.cells[off]
                v2, s = self.value(v)
                if not off[1]:
                    p.cells[off] = (sz, v2)
                    cs.append((off[0], sz, s))
                else:
                    p.cells[self.slot(off)] = (sz, v2)
                    cs.append(("#", sz, s))
            if o.size is not None:
                p.size = self.slot(o.size)
            sq = None
            if o.seq is not None:
                p.seq, sq = self.seq(o.seq)
            at = []
            for k in sorted(o.attr):
                if k == "bytes":
                    continue
                v2, s = self.value(o.attr[k])
                p.attr[k] = v2
                at.append((k, s))
            n.heap[oid] = p
            os_.append((o.kind, o.init, o.life, o.tag, o.size is None, tuple(cs), sq, tuple(at)))
        sk.append(tuple(os_))
        for f in n.frames:
            f.allocas = tuple(a for a in f.allocas if a in n.heap)
        for s in self.fins:
            n.fin[s] = st.fin[s]
        self.skel = tuple(sk)

    def slot(self, e):
        self.slots.append(e)
        if self.fl is not None:
            e = self.fl[len(self.slots) - 1]
        return e

    def fin(self, s):
        if s not in self.finno:
            self.finno[s] = len(self.fins)
            self.fins.append(s)
        return self.finno[s]

    def gid(self, g):
        return self.gids.setdefault(g, len(self.gids))

    def ref(self, oid):
        if oid not in self.objno:
            self.objno[oid] = len(self.queue) + 1
            self.queue.append(oid)
        return self.objno[oid]

    def term(self, x):
        return erename(x, {s: self.fin(s) for s in esyms(x)})

    def seq(self, q):
        out, sk = [], []
        for c in q:
            if c[0] == "b":
                v, s = self.value(c[1])
                out.append(("b", v)); sk.append(("b", s))
            elif c[0] == "T":
                out.append(("T", c[1], self.slot(c[2]), self.slot(c[3]))); sk.append(("T", c[1]))
            elif isinstance(c[1], tuple) and c[1] and c[1][0] == "rep":
                v, s = self.value(c[1][1])
                out.append(("G", ("rep", v), self.slot(c[2])) + c[3:]); sk.append(("G", ("rep", s)) + c[3:])
            else:
                out.append(("G", c[1], self.slot(c[2])) + c[3:]); sk.append(("G", self.gid(c[1])) + c[3:])
        return tuple(out), tuple(sk)

    def value(self, v):
        """(rewritten value, skeleton)"""
        if isinstance(v, tuple) and v:
            k = v[0]
            if k == "l" and len(v) == 3:
                e = self.slot(v[2])
                if v[1] in (32, 64):
                    self.ptrslots.append((None, v[2]))
                return ("l", v[1], e), ("l", v[1])
            if k == "p" and len(v) == 3:
                oid = v[1]
                o = self.src.heap.get(oid) if not isinstance(oid, tuple) else None
                if o is not None and o.kind == "seq" and len(o.seq) == 1 and o.seq[0][0] == "T":
                    self.ptrslots.append((o.seq[0][1], add(o.seq[0][2], v[2])))
                if oid == NULLOID or (isinstance(oid, tuple) and oid[0] == "K"):
                    return v, v
                if isinstance(oid, tuple):
                    self.ref(oid)
                    return ("p", oid, self.slot(v[2])), ("p", oid)
                n = self.ref(oid)
                return ("p", oid, self.slot(v[2])), ("p", n)
            if k == "t" and len(v) == 3:
                return v, ("t", v[1], self.term(v[2]))
            if k == "e" and len(v) == 3:
                return ("e", v[1], self.slot(v[2])), ("e", v[1])
            if k == "S" and len(v) == 2:
                return v, ("S", self.ref(v[1]))
            if k == "@LE":
                return ("@LE", self.slot(v[1])), ("@LE",)
            if k == "@obj":
                return v, ("@obj", self.ref(v[1]))
            if k == "@fin":
                return v, ("@fin", self.fin(v[1]))
            if k == "@seq":
                q, s = self.seq(v[1])
                return ("@seq", q), ("@seq", s)
            if k in ("f", "u", "x", "fp", "zero"):
                return v, v
            a, b = [], []
            for y in v:
                p, q = self.value(y)
                a.append(p); b.append(q)
            return tuple(a), tuple(b)
        return v, v


class Entry:
    __slots__ = ("id", "slots", "facts", "doms", "st", "joined", "fins")


def slotsyms(slots):
    r = set()
    for e in slots:
        for s, _ in e[1]:
            r.add(s)
    return r


def canon(E, st):
    prune_cells(E, st)
    w = Walk(E, st)
    keep = slotsyms(w.slots)
    n = w.dst
    n.facts, ok = lin.project(n.facts, keep)

    return w


def prune_cells(E, st):
    """empties local variables that nothing can read any more"""
    dead = {}
    last = len(st.frames) - 1
    for n, f in enumerate(st.frames):
        idx = f.idx if n == last else f.idx + 1
        for r in f.fn.mem_dead(f.blk, idx):
            v = f.regs.get(r)
            if v is not None and v[0] == "p":
                o = st.heap.get(v[1])
                if o is not None and o.cells and o.kind == "stack":
                    dead[v[1]] = (n, r)
    if not dead:
        return
    for oid, o in st.heap.items():
        for z, v in o.cells.values():
            mentions(v, dead)
        for v in o.attr.values():
            mentions(v, dead)
        if o.seq:
            mentions(o.seq, dead)
    mentions(tuple(st.ghost.values()), dead)
    for n, f in enumerate(st.frames):
        if f.data is not None:
            mentions(f.data, dead)
        live = None
        for r, v in f.regs.items():
            if v[0] in ("p", "agg") and (v[0] == "agg" or v[1] in dead and dead[v[1]] != (n, r)):
                if live is None:
                    ins = f.fn.blocks[f.blk][min(f.idx, len(f.fn.blocks[f.blk]) - 1)]
                    live = set(live_regs(f.fn, f.blk, f.idx, n == last, ins.get("d")))
                if r in live:
                    mentions(v, dead)
    for oid in dead:
        o = st.mut(oid)
        o.cells = {}
        o.init = "undef"


def mentions(v, dead):
    if not dead or not isinstance(v, tuple) or not v:
        return
    if v[0] == "p" and len(v) == 3:
        dead.pop(v[1], None)
        return
    if v[0] in ("@obj", "S"):
        dead.pop(v[1], None)
        return
    if v[0] in ("l", "t", "u", "x", "f", "@LE", "@fin"):
        return
    for x in v:
        if isinstance(x, tuple):
            mentions(x, dead)


def advance(E, st):
    """lets the monitors consume text the program has moved past; returns states"""
    todo, done = [st], []
    while todo:
        s = todo.pop()
        moved = False
        if s.tapes:
            w = Walk(E, s)
            for tid in sorted(s.tapes):
                t = s.tapes[tid]
                ahead = False
                # a program that keeps pointers into the text does not index it by integers
                ptrs = [e for owner, e in w.ptrslots if owner == tid]
                cursor = len(ptrs) > 1 or any(e[1] or e[0] for e in ptrs)
                for owner, e in w.ptrslots:
                    if owner not in (None, tid) or owner is None and cursor:
                        continue
                    d = sub(e, t.pos)
                    if d[1]:
                        continue
                    if d[0] >= 1 and (owner == tid or (d[0] <= 8 and 0 in t.cells and END not in s.fin[t.cells[0]])):
                        ahead = True
                        break
                if not ahead and E.positions_matter and not cursor:
                    # a counter of pairs: everything read so far lies before twice its value
                    r = 0
                    while r in t.cells and END not in s.fin[t.cells[r]]:
                        r += 1
                    if r >= 2 and any(owner is None and scale(e, 2) == add(t.pos, const(r)) for owner, e in w.ptrslots):
                        ahead = True
                if ahead:
                    todo.extend(consume(E, s, tid))
                    moved = True
                    break
                # forget bytes behind that nothing points at
                low = [k for k in t.cells if k < 0]
                if low:
                    used = set()
                    for owner, e in w.ptrslots:
                        d = sub(e, t.pos)
                        if not d[1]:
                            used.add(d[0])
                    t2 = s.mtape(tid)
                    for k in low:
                        if k not in used or k < -4:
                            del t2.cells[k]
                            t2.floor = 0
        if not moved:
            done.append(s)
    return done


def consume(E, st, tid):
    """moves the position of a text over one byte"""
    out = []
    t = st.tapes[tid]
    if 0 not in t.cells:
        r = E.tape_byte(st, tid, t.pos)
        st = r[0][0]
        t = st.tapes[tid]
    s = t.cells[0]
    if END in st.fin[s]:
        if len(st.fin[s]) > 1:
            a = st.copy()
            if E.set_dom(a, s, frozenset([END])):
                E.report("memory", a, "the program moves past the end of the text")
            if not E.set_dom(st, s, st.fin[s] - {END}):
                return []
        else:
            E.report("memory", st, "the program moves past the end of the text")
            return []
    mon = E.monitors.get(tid)
    res = mon.consume(E, st, tid, s) if mon else [st]
    for x in res:
        t = x.mtape(tid)
        t.pos = add(t.pos, ONE)
        t.cells = {k - 1: c for k, c in t.cells.items()}
        out.append(x)
    return out


def forget_position(E, st):
    """replaces a constant text position by "some position": what follows does not depend on how
    much text came before, unless integers near the position are kept"""
    for tid in list(st.tapes):
        t = st.tapes[tid]
        if t.pos[1] or t.pos[0] < 1 or t.len[0] or len(t.len[1]) != 1:
            continue
        w = Walk(E, st)
        near = lambda e: not e[1] and e[0] > 0 and -4 <= e[0] - t.pos[0] <= 8
        if any(o is None and not e[1] and e[0] > 1 and near(e) for o, e in w.ptrslots):
            continue
        p = sym(fresh("p"))
        move = lambda e: add(p, const(e[0] - t.pos[0])) if near(e) else e
        texts = set()
        for oid, o in st.heap.items():
            if o.kind == "seq" and len(o.seq) == 1 and o.seq[0][0] == "T" and o.seq[0][1] == tid and not o.seq[0][2][1] and o.seq[0][2][0] == 0:
                texts.add(oid)

        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == "p" and len(v) == 3 and v[1] in texts:
                    return ("p", v[1], move(v[2]))
                if v[0] == "agg":
                    return ("agg", tuple(val(x) for x in v[1]))
            return v
        for f in st.frames:
            f.regs = {r: val(v) for r, v in f.regs.items()}
        for oid, o in list(st.heap.items()):
            if any(v[0] == "p" and v[1] in texts for _, v in o.cells.values()):
                o = st.mut(oid)
                o.cells = {k: (z, val(v)) for k, (z, v) in o.cells.items()}
            if o.kind == "seq" and oid not in texts and any(c[0] == "T" and c[1] == tid for c in o.seq):
                st.mut(oid).seq = tuple(c if c[0] != "T" or c[1] != tid else ("T", tid, move(c[2]), move(c[3])) for c in o.seq)
        ln = t.len[1][0][0]
        facts = set()
        for e in st.facts:
            if len(e[1]) == 1 and e[1][0][0] == ln:
                c = e[1][0][1]
                if c == 1 and -e[0] > 0:
                    e = sub(add(e, const(t.pos[0])), p)
                elif c == -1 and e[0] < 1 << 40:
                    e = add(sub(e, const(t.pos[0])), p)
            facts.add(e)
        facts.add(sub(p, ONE))
        facts.add(sub(t.len, p))
        st.facts = frozenset(facts)
        t = st.mtape(tid)
        t.pos = p


_back = {}


def is_back(fn, prev, head):
    """is the edge prev->head a back edge (head dominates prev)?"""
    k = (fn, prev, head)
    if k not in _back:
        # head dominates prev iff prev is unreachable from the entry without head
        from ir import successors
        seen, todo = {0} if head != 0 else set(), [0] if head != 0 else []
        while todo:
            b = todo.pop()
            for x in successors(fn.blocks[b][-1]):
                if x != head and x not in seen:
                    seen.add(x); todo.append(x)
        _back[k] = prev not in seen
    return _back[k]


def at_head(E, st, prev=None):
    out = []
    f = st.frames[-1]
    if prev is not None and not is_back(f.fn, prev, f.blk):
        ctx = tuple((g.fn.name, g.blk, g.idx) for g in st.frames)
        st.lineage = tuple(x for x in st.lineage if x[0] != ctx)
        st.visits.pop(ctx, None)
    pre = E.hooks.get("head")
    states = advance(E, st)
    for s in states:
        if pre:
            s = pre(E, s)
            if s is None:
                continue
        if not E.positions_matter:
            forget_position(E, s)
        if E.dedupe:
            E.park(s, 1)
            continue
        r = process(E, s)
        if r is not None:
            out.append(r)
    return out


def unify(E, e, w, wst):
    """match entry e against canonical walk w: (σ, mismatching slots, failing facts)"""
    sig = {}
    pend = list(range(len(e.slots)))
    bad = []
    while pend:
        nxt = []
        progress = False
        for i in pend:
            x, y = e.slots[i], w.slots[i]
            un = [(s, c) for s, c in x[1] if s not in sig]
            if not un:
                d = sub(y, subst(x, sig))
                if d != ZERO and not (d[1] and entails(wst.facts, d) and entails(wst.facts, scale(d, -1))):
                    bad.append(i)
                progress = True
            elif len(un) == 1:
                s, c = un[0]
                rest = sub(x, scale(sym(s), c))
                d = sub(y, subst(rest, sig))
                if d[0] % c or any(k % c for _, k in d[1]):
                    bad.append(i)
                else:
                    sig[s] = (d[0] // c, tuple((q, k // c) for q, k in d[1]))
                progress = True
            else:
                nxt.append(i)
        pend = nxt
        if pend and not progress:
            # several unknowns: prefer the identity
            s = [s for s, c in e.slots[pend[0]][1] if s not in sig][0]
            sig[s] = sym(s)
    fails = []
    for f in e.facts:
        g = subst(f, sig)
        if not entails(wst.facts, g):
            fails.append(f)
    return sig, bad, fails


def doms_ok(e, w):
    return all(w.src.fin[b] <= a for a, b in zip(e.doms, w.fins))


def process(E, st):
    E.stats["loop_heads"] += 1
    if "process" in E.hooks:
        return E.hooks["process"](E, st)
    w = canon(E, st)
    n = w.dst
    key = w.skel
    entries = E.heads.setdefault(key, [])
    for e in entries:
        if not doms_ok(e, w):
            continue
        sig, bad, fails = unify(E, e, w, n)
        if not bad and not fails:
            E.stats["subsumed"] += 1
            if "again" in E.hooks:
                E.hooks["again"](E, st, e, sig, n)
            return None
    ids = set(x[1] for x in st.lineage)
    mine = [e for e in entries if e.id in ids]
    f = n.frames[-1]
    ctx = tuple((g.fn.name, g.blk, g.idx) for g in n.frames)
    n.visits[ctx] = n.visits.get(ctx, 0) + 1
    if len(mine) >= E.delay:
        A = mine[-1]
        concrete = not A.joined and \
            all(a == b or (not a[1] and not b[1]) for a, b in zip(A.slots, w.slots)) and \
            len(mine) < ((E.big_unroll or BIG_UNROLL) if A.facts == n.facts else E.short_unroll) and \
            all(n.tapes[k].pos == t.pos for k, t in A.st.tapes.items() if k in n.tapes)
        if not concrete:
            E.stats["joins"] += 1
            return join(E, A, mine, w, key, entries)
    if n.visits[ctx] > BIG_UNROLL + 20:
        raise Undecided("loop at %s does not stabilise" % E.where(st))
    add_entry(entries, w, n)
    return n


def seen(E, st):
    """drops a state that an earlier one at the same point covers"""
    w = canon(E, st)
    entries = E.heads.setdefault(("pt",) + w.skel, [])
    for e in entries:
        if not doms_ok(e, w):
            continue
        sig, bad, fails = unify(E, e, w, w.dst)
        if not bad and not fails:
            E.stats["subsumed"] += 1
            return True
    e = Entry()
    e.id = None
    e.slots = list(w.slots)
    e.facts = w.dst.facts
    e.doms = [w.dst.fin[s] for s in w.fins]
    e.fins = None; e.st = None; e.joined = False
    entries.append(e)
    return False


def merge(E, states, drop=True):
    """states waiting at the same place: drop covered ones, unite those that
    differ in the values of one finite symbol only"""
    if len(states) == 1:
        return [s for s in states if not (drop and seen(E, s))]
    groups = {}
    for s in states:
        w = canon(E, s)
        # rename the finite symbols of opaque terms is not attempted: slots must agree exactly
        groups.setdefault((w.skel, tuple(w.slots), w.dst.facts), []).append(w)
    out = []
    for ws in groups.values():
        items = [(w, [w.dst.fin[s] for s in w.fins]) for w in ws]
        changed = True
        while changed and len(items) > 1:
            changed = False
            for i in range(len(items)):
                for j in range(len(items) - 1, i, -1):
                    a, b = items[i][1], items[j][1]
                    diff = [k for k in range(len(a)) if a[k] != b[k]]
                    if len(diff) <= 1 and not (diff and ((END in a[diff[0]]) or (END in b[diff[0]]))):
                        if diff:
                            a[diff[0]] = a[diff[0]] | b[diff[0]]
                        items.pop(j)
                        E.stats["merged"] = E.stats.get("merged", 0) + 1
                        changed = True
        for w, doms in items:
            n = w.dst
            for s, d in zip(w.fins, doms):
                n.fin[s] = d
            if not (drop and seen(E, n)):
                out.append(n)
    return out


def add_entry(entries, w, n, joined=False, slots=None):
    e = Entry()
    e.id = next(_ids)
    e.slots = list(slots if slots is not None else w.slots)
    e.facts = n.facts
    e.doms = [n.fin[s] for s in w.fins]
    e.fins = list(w.fins)
    e.st = n.copy()
    e.joined = joined
    entries.append(e)
    n.lineage = n.lineage + ((tuple((g.fn.name, g.blk, g.idx) for g in n.frames), e.id),)
    return e


def join(E, A, mine, w, key, entries):
    B = w.dst
    if A.joined:
        sig, bad, fails = unify(E, A, w, B)
    else:
        bad, fails, sig = [i for i, (a, b) in enumerate(zip(A.slots, w.slots)) if a != b], [], {}
    newslots = list(A.slots)
    extra, cands = [], []
    lossy = None
    zs = []        # (new expr, a, b)
    t = None
    if not A.joined:
        deltas = set()
        for i in bad:
            a, b = A.slots[i], w.slots[i]
            d = sub(b, a)
            if not d[1]:
                if t is None:
                    t = fresh("t")
                newslots[i] = add(a, scale(sym(t), d[0]))
                deltas.add(abs(d[0]))
            else:
                newslots[i] = generalise(a, b, zs)
        if t is not None:
            extra.append(sym(t))
        back = {}
        for z, a, b in zs:
            lossy = "a loop changes a value irregularly"
            if len(b[1]) == 1 and b[1][0][1] == 1 and z[1] and len(z[1]) == 1:
                s = b[1][0][0]
                if s not in slotsyms(A.slots):
                    back[s] = sub(z, const(b[0])) if not z[0] else z
        asy = slotsyms(A.slots)
        zsyms = {zz[0][1][0][0]: zz for zz in zs if len(zz[0][1]) == 1}
        at0 = {}
        at1 = {}
        if t is not None:
            at0[t] = ZERO; at1[t] = const(1)
        for z, a, b in zs:
            if len(z[1]) == 1 and z[0] == 0:
                at0[z[1][0][0]] = a; at1[z[1][0][0]] = b
        moving = {s for i in bad for s, _ in A.slots[i][1]}
        for f in B.facts:
            known = f in A.facts
            if known and (t is None or not any(s in moving for s, _ in f[1])):
                continue
            g = subst(f, back)
            cs = deltas | {-d for d in deltas} if known else {0} | deltas | {-d for d in deltas}
            for s, c in f[1]:
                for d in deltas:
                    cs.add(c * d); cs.add(-c * d)
            for c in cs:
                h = sub(g, scale(sub(sym(t), const(1)), c)) if t is not None else g
                cands.append(h)
        for z, a, b in zs:
            cands += [sub(z, a), sub(a, z), z]
            for s in asy:
                cands.append(sub(sym(s), z))
                cands.append(sub(z, sym(s)))
        for i in bad:
            for top in (U32, U64):
                cands.append(sub(const(top), newslots[i]))
        good = []
        for h in set(cands):
            if not h[1]:
                continue
            if entails(A.facts, subst(h, at0)) and entails(B.facts, subst(h, at1)):
                good.append(h)
        facts = set(A.facts) | set(extra) | set(good)
    else:
        facts = set(A.facts) - set(fails)
        for i in bad:
            a, b = A.slots[i], w.slots[i]
            newslots[i] = generalise(a, b, zs)
            lossy = "a loop changes a value irregularly"
        for z, a, b in zs:
            if len(z[1]) == 1 and z[0] == 0:
                at0 = {z[1][0][0]: a}
                at1 = {z[1][0][0]: b}
                for h in [z, sub(z, a), sub(a, z)] + [sub(sym(s), z) for s in slotsyms(A.slots)]:
                    if entails(A.facts, subst(h, at0)) and entails(B.facts, subst(h, at1)):
                        facts.add(h)
        if not bad and not fails:
            # only domains differ
            pass
    w2 = Walk(E, A.st, newslots)
    n = w2.dst
    n.facts = frozenset(lin.tighten(x) for x in facts if x[1])
    # domains: union, matched in traversal order
    for sa, sb in zip(w2.fins, w.fins):
        n.fin[sa] = n.fin[sa] | w.src.fin[sb]
    n.lineage = B.lineage
    n.trail = B.trail
    n.visits = B.visits
    if not lossy and E.joins_lossy:
        lossy = "a loop is followed in general only"
    if lossy and n.exact:
        n.lossy(lossy)
    w3 = canon(E, n)
    n = w3.dst
    ents = E.heads.setdefault(w3.skel, [])
    for e in ents:
        if doms_ok(e, w3):
            sg, bd, fl = unify(E, e, w3, n)
            if not bd and not fl:
                E.stats["subsumed"] += 1
                if "again" in E.hooks:
                    E.hooks["again"](E, n, e, sg, n)
                return None
    add_entry(ents, w3, n, joined=True)
    return n


def generalise(a, b, zs):
    for z, a0, b0 in zs:
        da, db = sub(a, a0), sub(b, b0)
        if da == db and not da[1]:
            return add(z, da)
    z = sym(fresh("z"))
    zs.append((z, a, b))
    return z
