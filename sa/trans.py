"""Texts read in step with a transducer: what the program has produced is compared with
what the transducer says the bytes read so far denote."""
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import models, loops


def same_chunk(E, st, x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "G":
        return x[1] == y[1]
    if x[0] == "T":
        return x == y
    if x[1] == y[1]:
        return True
    if x[1][0] == "x" or y[1][0] == "x":
        return True
    a, b = E.expr_of(x[1]), E.expr_of(y[1])
    if a is None or b is None:
        return False
    try:
        return E.term_values(st, ("cmp", "eq", 8, a, b)) == {1}
    except Undecided:
        return False


def normal(E, st, q):
    return [c for c in q if not (c[0] == "G" and c[2] is not None and E.ent(st, scale(E.seq_len(st, (c,)), -1)))]


def same_seq(E, st, p, q):
    p, q = normal(E, st, p), normal(E, st, q)
    return len(p) == len(q) and all(same_chunk(E, st, x, y) for x, y in zip(p, q))


class Trans:
    """steps(mode) -> [(bytes, next mode, [functions giving the bytes produced], note)]
    The mode is in ghost "mode", what is produced so far in ghost "D"."""

    def __init__(self, steps, dead="dead", start=None):
        self.steps = steps
        self.start = start      # mode at the beginning: allows the program to read the text twice
        self.dead = dead

    def consume(self, E, st, tid, s):
        left = set(st.fin[s])
        groups = []
        for r in self.steps(st.ghost["mode"]):
            g = frozenset(left & r[0])
            if g:
                groups.append((g,) + tuple(r[1:]))
                left -= g
        if left:
            groups.append((frozenset(left), self.dead, (), None))
        out = []
        if st.ghost.get("bad"):
            st.lossy("bytes of a text known to hold an unwanted byte")
        for i, (g, mode, emit, keep) in enumerate(groups):
            x = st if i == len(groups) - 1 else st.copy()
            if not E.set_dom(x, s, g):
                continue
            D = x.ghost["D"][1]
            for f in emit:
                D = D + (("b", f(E, x, ("s", s, 8))),)
            if mode == self.dead:
                D = ()
            x.ghost["D"] = ("@seq", D)
            if keep is not None:
                keep(E, x, ("s", s, 8))
            if mode != x.ghost["mode"]:
                x.note("a byte of %s, now %s" % (show(g), mode))
            x.ghost["mode"] = mode
            if self.start is not None:
                # the bytes passed so far are the domain of a symbol, so that joins unite them
                old = x.ghost.get("seen")
                x.ghost["seen"] = ("t", 8, ("s", E.newfin(x, g | (x.fin[old[2][1]] if old else frozenset())), 8))
            out.append(x)
        return out

    def rewind(self, E, st, tid):
        """the program has walked over the whole text and reads it from the start again: what it
        let pass the first time is all that can be there"""
        t = st.tapes[tid]
        d = sub(t.len, t.pos)
        if self.start is None or st.ghost["mode"] == self.dead or not (E.ent(st, d) and E.ent(st, scale(d, -1))):
            return False
        t = st.mtape(tid)
        t.pos = ZERO
        t.cells = {}
        t.floor = 0
        old = st.ghost.get("seen")
        t.dom = frozenset(st.fin[old[2][1]]) if old and old[0] == "t" else frozenset()
        st.ghost["mode"] = self.start
        st.ghost["D"] = ("@seq", ())
        for k in ("unfollowed", "seen"):
            st.ghost.pop(k, None)
        st.note("the text is read again from the start")
        return True


def show(g):
    g = sorted(g)
    if len(g) > 8:
        return "%d kinds" % len(g)
    return "/".join(repr(chr(c)) if c < 256 else "END" for c in g)


def fold(E, st, tags=("byte vector", "string", "stream")):
    """replaces what both sides agree on by one summary of the same length"""
    if "D" not in st.ghost:
        return st
    D = st.ghost["D"][1]
    if not D:
        return st
    cand = []
    for oid, o in st.heap.items():
        if o.kind == "seq" and o.life == "live" and o.seq and o.tag in tags:
            k = 0
            while k < len(D) and k < len(o.seq) and same_chunk(E, st, D[k], o.seq[k]):
                k += 1
            if k:
                cand.append((k, oid))
    k = max([c[0] for c in cand] or [0])
    if k <= 1 and (k == 0 or D[0][0] == "G"):
        if len(D) > (6 if k else 2):
            if not st.ghost.get("unfollowed"):
                st.ghost["unfollowed"] = 1
            st.ghost["D"] = ("@seq", (("G", ("TR", fresh("d")), E.seq_len(st, D)),))
            for oid, o in list(st.heap.items()):
                if o.kind == "seq" and o.tag in tags and len(o.seq) >= 2:
                    st.mut(oid).seq = (("G", ("DIFF", fresh("d")), E.seq_len(st, o.seq)),)
        return st
    g = ("G", ("TR", fresh("d")), E.seq_len(st, D[:k]))
    st.ghost["D"] = ("@seq", (g,) + D[k:])
    for n, oid in cand:
        if n == k:
            o = st.mut(oid)
            o.seq = (g,) + o.seq[k:]
    return st


def finish_read(E, st, tid="text"):
    """lets the transducer consume what the program has read; returns states"""
    todo, out = list(loops.advance(E, st)), []
    while todo:
        s = todo.pop()
        t = s.tapes[tid]
        if 0 in t.cells and END not in s.fin[t.cells[0]]:
            todo.extend(loops.consume(E, s, tid))
        else:
            out.append(s)
    return out
