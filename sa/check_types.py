"""C16: the integer types and their string conversions.  The widths are obligations of the type system (a
witness translation unit that does not compile when one is broken); the conversions are looked for among the
symbols the library defines and followed by abstract interpretation."""
import os, re, subprocess, tempfile, shutil
import ir, models, streams
from lin import const, add, sub, sym, ZERO
from engine import *
from models import ret, seqof, freshlen, const_seq

TYPES = ["u64", "u128", "u160", "u256", "s256", "Bool", "Int", "UInt", "Address"]
NUM = r"boost::multiprecision::number<"


def witness(tu, r, kind, what):
    """compiles a witness unit; its failed assertions become findings. True when it compiles"""
    tmp = tempfile.mkdtemp(prefix="sa_")
    try:
        cmd = [c for c in ir.CXX if c not in ("-w",)] + ["-w", "-fno-delayed-template-parsing", "-ferror-limit=0"] + ir.includes(tmp) + \
              ["-fsyntax-only", ir.tu_path(tu)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    n = open(ir.tu_path(tu)).read().count("static_assert(")
    r.obligations += n
    if p.returncode == 0:
        r.discharged += n
        return True
    lines = p.stdout.splitlines()
    errs = [(i, l) for i, l in enumerate(lines) if " error: " in l]
    for i, l in errs:
        m = re.search(r"error: (.*)", l)
        text = m.group(1)
        notes = [x.split(" note: ")[1] for x in lines[i + 1:i + 14] if " note: " in x][:3]
        where = l.split(": error")[0].replace(ir.HERE + "/", "").replace(ir.REPO + "/", "")
        f = Finding(kind, "%s: %s" % (what, re.sub(r".*: SA: ", "", text)), where, notes, [], True, None)
        if not any(x.ident() == f.ident() for x in r.findings):
            r.findings.append(f)
    if not errs:
        raise ir.AnalysisBroken("the witness %s does not compile: %s" % (tu, p.stdout[-2000:]))
    return False


class Conv:
    def __init__(self, prog):
        self.prog = prog
        self.E = E = Engine(prog, max_steps=300000)
        models.install(E)
        streams.install(E)
        M = E.model
        M(r"^([a-z:]+ )?boost::", self.unknown)
        M(r"^(void )?" + NUM + r".*>::(number|operator=)(<.*>)?\(" + NUM + r".*> (const&|&&)(, .*)?\)( const)?$", self.copy)
        M(r"^" + NUM + r".*>::~number\(\)$", lambda E, st, ins, a, d: [ret(st)])
        M(r"^(std::string )?" + NUM + r".*>::str(\[abi:cxx11\])?\(long, std::_Ios_Fmtflags\) const$", self.str)
        M(r"^(std::string )?boost::lexical_cast<std::string, .*>\(.* const&\)$", self.lexical)
        M(r"^std::ostream& boost::multiprecision::operator<<<", self.out)
        M(r"^std::(__cxx11::)?to_string(\[abi:cxx11\])?\((unsigned )?(int|long|long long)\)$", self.builtin_text)
        M(r"^std::enable_if<.*boost::multiprecision::operator(==|!=|<=|>=|<|>) ?<.*\(.*, .*\)$", self.compare)
        M(r"boost::multiprecision::operator(>>|<<|[-+*/%&|^~]) ?<.*\(" + NUM + r".*\)$", self.arith)
        M(NUM + r".*>::(operator([-+*/%&|^]|<<|>>)=|operator(\+\+|--)|negate\()", self.update)
        M(r"^" + NUM + r".*>::number(<(unsigned |signed )?(int|long|long long|short|char)>)?\(((unsigned |signed )?(int|long|long long|short|char) (const&|&&).*)?\)$", self.make)
        M(r"^(unsigned |signed )?(int|long|long long|short|char) " + NUM + r".*>::convert_to<[a-z ]+>\(\) const$", self.narrow)
        M(r"^" + NUM + r".*>::operator (unsigned |signed )?(int|long|long long|short|char)<.*>\(\) const$", self.narrow)
        M(r"^" + NUM + r".*>::(is_zero\(\)|sign\(\)|operator!\(\)|operator bool(<.*>)?\(\)) const$", self.ask)
        E.hooks["outcome"] = self.outcome
        E.hooks["terminate"] = lambda E, st, d: E.report("convert", st, "the process is ended by %s" % d)

    def unknown(self, E, st, ins, a, d):
        raise Undecided("call of %s" % re.sub(NUM + r".*?, \(boost::multiprecision::expression_template_option\)\d> ?>?", "number", d)[:120])

    def num(self, st, v):
        o = self.E.deref(st, v, 1, "read of an integer")
        return None if o is None else o.attr.get("num %r" % (v[2],))

    # what a number is: ("lin", e) for a linear expression, ("cut", t, bits) for one that lost its upper part,
    # ("of", ...) for something else made of it
    def lin(self, st, v, d, i):
        """the linear expression of an operand: a number, or the builtin integer behind a reference"""
        o = st.heap.get(v[1]) if v[0] == "p" else None
        if o is not None and "num %r" % (v[2],) in o.attr:
            t = self.num(st, v)
            return t[1] if t[0] == "lin" else None
        m = re.search(r"\(.*\)", d[d.rindex("operator"):] if "operator" in d else d)
        ty = m.group(0)[1:-1] if m else ""
        w = 64 if "long" in ty.split(", ")[-1] else 16 if "short" in ty else 8 if re.search(r"\bchar\b", ty) else 32
        signed = "unsigned" not in ty.split(", ")[-1] if i else "unsigned" not in ty.split(", ")[0]
        if i == 0:
            w = 64 if "long" in ty.split(", ")[0] else w
        r = self.E.load(st, v, w // 8, "i%d" % w)
        if len(r) != 1 or r[0][1][0] != "l":
            raise Undecided("an integer that is not known")
        e = r[0][1][2]
        if signed and not e[1] and e[0] >> (w - 1):
            e = const(e[0] - (1 << w))
        return e

    def fits(self, st, e, bits, signed):
        lo = -(1 << bits) + 1 if signed == "magnitude" else -(1 << (bits - 1)) if signed else 0
        hi = (1 << bits) - 1 if signed != True else (1 << (bits - 1)) - 1
        return self.E.ent(st, sub(e, const(lo))) and self.E.ent(st, sub(const(hi), e))

    def put(self, st, p, t):
        if self.E.deref(st, p, 1, "write of an integer") is None:
            return []
        st.mut(p[1]).attr["num %r" % (p[2],)] = t
        return [ret(st, p)]

    def compare(self, E, st, ins, a, d):
        op = re.search(r"multiprecision::operator(==|!=|<=|>=|<|>) ?<", d).group(1)
        x, y = self.lin(st, a[0], d, 0), self.lin(st, a[1], d, 1)
        if x is None or y is None:
            st.lossy("comparison of something made of the number")
            return [ret(st.copy(), BTRUE), ret(st, BFALSE)]
        p = {"==": "eq", "!=": "ne", "<": "slt", ">": "sgt", "<=": "sle", ">=": "sge"}[op]
        return [ret(s, v) for s, v in E.cmp_lin(st, p, sub(x, y))]

    def divided(self, st, x, m):
        """quotient and remainder, each determined by linear facts"""
        name = "%s by %d" % (repr(x), m)
        if name not in st.ghost:
            if any(isinstance(k, str) and " by " in k for k in st.ghost):
                st.lossy("remainders of different divisions")
            q, r = sym("quotient of " + name), sym("remainder of " + name)
            st.ghost[name] = (L(320, q), L(320, r))
            for f in (q, r, sub(const(m - 1), r), sub(x, add(scale(q, m), r)), sub(add(scale(q, m), r), x)):
                self.E.assume(st, f)
        return tuple(v[2] for v in st.ghost[name])

    def kind(self, d):
        m = re.findall(r"backends::cpp_int_backend<(\d+)ul, (\d+)ul, \(boost::multiprecision::cpp_integer_type\)(\d)", d)
        return (int(m[0][1]), "magnitude" if m[0][2] in "13" else False) if m else None

    def arith(self, E, st, ins, a, d):
        op = re.search(r"multiprecision::operator(>>|<<|[-+*/%&|^~])", d).group(1)
        k = self.kind(d)
        e = None
        if k:
            x = self.lin(st, a[1], d, 0)
            y = self.lin(st, a[2], d, 1) if len(a) > 2 else None
            if x is not None and op == "-" and len(a) == 2: e = scale(x, -1)
            elif x is not None and y is not None and op in "+-": e = add(x, y) if op == "+" else sub(x, y)
            elif x is not None and y is not None and not y[1] and y[0] >= 0 and E.ent(st, x):
                m = 1 << y[0] if op in (">>", "<<") and y[0] < 512 else y[0] + 1 if op == "&" and not y[0] & (y[0] + 1) else y[0] if op in "/%" else 0
                if m and op == "<<":
                    e = scale(x, m)
                elif m:
                    e = self.divided(st, x, m)[0 if op in (">>", "/") else 1]
            if e is not None and not self.fits(st, e, *k):
                e = None
        return [("ret", s, None) for _, s, _ in self.put(st, a[0], ("lin", e) if e is not None else ("of", d[:60]))]

    def update(self, E, st, ins, a, d):
        return self.put(st, a[0], ("of", d[:60]))

    def make(self, E, st, ins, a, d):
        e = ZERO if len(a) == 1 else self.lin(st, a[1], d[d.rindex("number"):], 0)
        k = self.kind(d)
        if e is None or not k or not self.fits(st, e, *k):
            return self.put(st, a[0], ("of", d[:60]))
        return self.put(st, a[0], ("lin", e))

    def narrow(self, E, st, ins, a, d):
        w = width(ins["t"])
        ty = re.search(r"operator ([a-z ]+)<", d) or re.search(r"convert_to<([a-z ]+)>", d)
        t = self.num(st, a[0])
        if t is None:
            raise Undecided("integer that is not known")
        signed = "unsigned" not in ty.group(1)
        if t[0] == "lin" and self.fits(st, t[1], w, signed):
            if not signed or E.ent(st, t[1]):
                return [ret(st, L(w, t[1]))]
            return [ret(st, ("x", "a negative integer"))]
        k = fresh("lost")
        E.assume(st, sym(k)); E.assume(st, sub(const((1 << w) - 1), sym(k)))
        return [ret(st, L(w, sym(k)))]

    def ask(self, E, st, ins, a, d):
        t = self.num(st, a[0])
        if t is None or t[0] != "lin":
            st.lossy("question about something made of the number")
            return [ret(st, ("x", "int"))]
        if not "sign" in d.rsplit("::", 1)[-1]:
            return [ret(s, v) for s, v in E.cmp_lin(st, "ne" if "operator bool" in d else "eq", t[1])]
        out = []
        for s, v in E.cmp_lin(st, "sge", sub(t[1], const(1))):
            if v == BTRUE: out.append(ret(s, C(32, 1)))
            else: out += [ret(s2, C(32, 0) if v2 == BTRUE else C(32, (1 << 32) - 1)) for s2, v2 in E.cmp_lin(s, "eq", t[1])]
        return out

    def builtin_text(self, E, st, ins, a, d):
        e = a[1][2] if a[1][0] == "l" else None
        if e is None:
            raise Undecided("text of an integer that is not known")
        if "unsigned" not in d and not E.ent(st, sub(const((1 << (31 if "(int)" in d else 63)) - 1), e)):
            raise Undecided("text of an integer that may be negative")
        E.set_handle(st, a[0], self.text(st, ("lin", e), streams.DEFFMT))
        return [ret(st)]

    def copy(self, E, st, ins, a, d):
        t = self.num(st, a[1])
        if t is None or E.deref(st, a[0], 1, "copy of an integer") is None:
            raise Undecided("copy of an integer that is not known")
        m = re.findall(r"backends::cpp_int_backend<(\d+)ul, (\d+)ul, \(boost::multiprecision::cpp_integer_type\)(\d)", d)
        if not m:
            raise Undecided("conversion of an integer")
        bits, signed = int(m[0][1]), m[0][2] in "13"
        if t[0] == "lin" and not self.fits(st, t[1], bits, "magnitude" if signed else False):
            t = ("cut", t, bits)
        st.mut(a[0][1]).attr["num %r" % (a[0][2],)] = t
        return [ret(st, a[0])]

    def text(self, st, t, code):
        return (("G", ("decimal", t) if code == streams.DEFFMT else ("formatted", code, t), freshlen(self.E, st, "n", const(400))),)

    def str(self, E, st, ins, a, d):
        t = self.num(st, a[1])
        if t is None or not isconst(a[2]) or not isconst(a[3]):
            raise Undecided("text of an integer that is not known")
        fl = cval(a[3])
        code = streams.DEFFMT if not fl & ~2 else fl << 8 | 1     # decimal, no sign, no base
        E.set_handle(st, a[0], self.text(st, t, code))
        return [ret(st)]

    def lexical(self, E, st, ins, a, d):
        o = E.deref(st, a[1], 1, "read of an integer")
        if o is None:
            return []
        t = o.attr.get("num %r" % (a[1][2],))
        if t is None:
            raise Undecided("text of something that is not known")
        E.set_handle(st, a[0], self.text(st, t, streams.DEFFMT))
        return [ret(st)]

    def out(self, E, st, ins, a, d):
        t = self.num(st, a[1])
        k = E.models_stream(E, st, a[0])
        if t is None or k is None:
            raise Undecided("output of an integer that is not known")
        c = st.heap[k[0]].cells.get(add(k[1], const(8)))
        q = self.text(st, t, cval(c[1]))
        st.mut(k[2]).seq = st.heap[k[2]].seq + q
        return [ret(st, a[0])]

    def outcome(self, E, st, kind, val):
        E.oblige("convert", st)
        T = self.T
        where = "lib/eni_types.cpp: to_string(%s)" % T
        if kind != "ret":
            E.report("convert", st, "to_string(%s) does not return" % T, where)
            return
        q = seqof(E, st, st.ghost["out"])
        if T == "Bool":
            want = const_seq(b"true" if st.ghost["bool"] else b"false")
            if q != want:
                E.report("convert", st, "to_string(%s) does not give %s" % ("true" if st.ghost["bool"] else "false", "true" if st.ghost["bool"] else "false"), where)
            return
        if not self.digits(st, q, st.ghost["the value"][2]):
            E.report("convert", st, "to_string(%s) gives something else than the decimal digits of its argument" % T, where)

    def digits(self, st, q, e):
        """is the text the decimal digits of e?"""
        ent = self.E.ent
        if len(q) == 1 and q[0][0] == "G" and isinstance(q[0][1], tuple):
            g = q[0][1]
            if g[0] == "decimal" and g[1][0] == "lin":
                d = sub(g[1][1], e)
                return ent(st, d) and ent(st, scale(d, -1))
            if g[0] == "int":
                return g[1] == streams.DEFFMT and g[4] == repr(e) and (not g[3] or ent(st, e))
            return False
        if q and q[0] == ("b", C(8, 45)):
            return ent(st, sub(scale(e, -1), const(1))) and self.digits(st, q[1:], scale(e, -1))
        if all(c[0] == "b" and isconst(c[1]) for c in q):
            t = "".join(chr(cval(c[1])) for c in q)
            if not re.match(r"^(0|[1-9][0-9]*)$", t):
                return False
            d = sub(e, const(int(t)))
            return ent(st, d) and ent(st, scale(d, -1))
        return False

    def run(self, T, fn):
        E = self.E
        self.T = T
        for b in ((0, 1) if T == "Bool" else (None,)):
            st = St()
            h = st.new(Obj("ext", const(32), "undef", tag="result"))
            st.ghost["out"] = P(h)
            v = st.new(Obj("ext", None, "unk", tag="argument"))
            if b is None:
                e = sym("the argument")
                bits, signed = {"u64": 64, "u128": 128, "u160": 160, "Address": 160}.get(T, 256), T in ("s256", "Int")
                hi = const((1 << bits) - 1)
                E.assume(st, sub(hi, e)); E.assume(st, add(e, hi) if signed else e)
                st.mut(v).attr["num %r" % (ZERO,)] = ("lin", e)
                st.ghost["the value"] = L(320, e)
            else:
                st.ghost["bool"] = b
                st.mut(v).cells[ZERO] = (1, C(8, b))
            E.heads.clear()
            E.explore(st, fn, [P(h), P(v)])


def decide(pid, kinds, tier):
    import properties
    r = properties.Result("compile-time obligations on the integer types, and every string conversion followed to its result")
    r.rules = ["each type is an integer type of exactly the documented number of bits and signedness, bounded, wrapping and without an allocator",
               "the aliases denote the documented types", "the library defines the conversion of each type under the name its header declares",
               "a conversion gives the plain decimal digits of its argument (booleans: true, false)"]
    if not witness("itypes", r, "width", "eni_types.h"):
        return r
    lib = ir.load(["types"])
    both = ir.load(["itypes", "types"])
    c = Conv(both)
    for T in TYPES:
        fn = both.one(r"^sa_conv_%s\b" % T)
        called = [o[1] for b in fn.blocks for i in b if i.get("f") for o in [i["f"]] if o[0] == "f" and "to_string" in o[1]]
        r.obligations += 1
        if not called:
            raise ir.AnalysisBroken("the conversion of %s is not called" % T)
        f = lib.functions.get(called[0])
        if (f is None or not f.defined) and not both.functions[called[0]].defined:
            r.findings.append(Finding("convert", "the library does not provide to_string(%s)" % T, "lib/eni_types.cpp", [], [], True, None))
            continue
        r.discharged += 1
        c.run(T, fn)
    r.add_engine(c.E, kinds)
    return r


if __name__ == "__main__":
    r = decide("C16", ("width", "convert", "memory", "uninit"), "quick")
    print(r.stats, r.obligations, r.discharged)
    for f in r.findings + r.undecided: print(f.text())
