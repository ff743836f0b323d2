"""C02 C08 C09 C14: the operations behind their C interface, for any argument text,
any parsed argument value, any key and message and any outcome of the cipher library."""
import re
import lin
from lin import const, sym, add, sub, scale, ZERO
from engine import *
import ir, models, loops, streams
from models import ret, seqof, anyseq, freshlen

INT, BOOL, STRING, OBJECT, ARRAY, UNDEF = range(6)
KINDS = ["integer", "boolean", "string", "object", "array", "undefined"]
REFUSAL = 1500
# argument types the operations need
NEED = {"rsa_encrypt": (STRING, STRING), "rsa_decrypt": (STRING, STRING), "scrypt": (STRING,), "reverse": (STRING,),
        "json": None}
PUSHED = [("pushed", None, None)]
NO_PADDING, PKCS1 = 3, 1


class Ops:
    def __init__(self, prog, max_steps=400000, deadline=None):
        self.prog = prog
        self.E = E = Engine(prog, max_steps=max_steps, deadline=deadline)
        models.install(E)
        streams.install(E)
        self.calls = {}
        self.install()

    def count(self, k):
        self.calls[k] = self.calls.get(k, 0) + 1

    # ------------------------------------------------------------ environment
    def install(self):
        E = self.E
        M = E.model
        M(r"^sa_kind$", self.kind)
        M(r"^sa_(more|ok)$", lambda E, st, ins, a, d: [ret(st, C(1, 0))] if st.ghost.get("history") and "args" in st.ghost and not st.ghost.get("built")
          else [ret(st.copy(), C(1, 0)), ret(st, C(1, 1))])
        M(r"^sa_text$", self.text)
        M(r"^sa_gas$", self.abstract_gas)
        M(r"^boost::multiprecision::number<.*>::number", self.number_ctor)
        M(r"^boost::multiprecision::number<.*>::(~number|operator=)", lambda E, st, ins, a, d: [ret(st, a[0])])
        M(r"^boost::multiprecision::.*operator<<", lambda E, st, ins, a, d: [ret(st, a[0])])
        M(r"^json::Parser::Parser\(std::string const&\)$", self.parser_ctor)
        M(r"^json::Parser::operator bool\(\) const$", self.parser_ok)
        M(r"^json::Parser::getRoot\(\)( const)?$", self.parser_root)
        M(r"^json::Parser::~Parser\(\)$", lambda E, st, ins, a, d: [ret(st)])
        M(r"^json::Value::print\(std::ostream&\) const$", self.print_value)
        M(r"^json::(Array|Object)::print\(std::ostream&\) const$", self.print_container)
        M(r"^scrypt_1024_1_1_256(_sp)?\(", self.scrypt)
        M(r"^eni_crypto::hex2str\(std::string const&, std::string&\)$", self.hex2str)
        M(r"^eni_crypto::str2hex\(std::string const&, std::string&\)$", self.str2hex)
        M(r"^BIO_new_mem_buf$", self.bio_new)
        M(r"^BIO_(free|free_all|vfree)$", self.bio_free)
        M(r"^PEM_read_bio_(RSA_PUBKEY|RSAPrivateKey|RSAPublicKey)$", self.pem_read)
        M(r"^RSA_size$", self.rsa_size)
        M(r"^RSA_free$", self.rsa_free)
        M(r"^RSA_(public|private)_(encrypt|decrypt)$", self.rsa_op)
        M(r"^(ERR_(clear_error|get_error|peek_error|print_errors_fp)|OPENSSL_cleanse)$", lambda E, st, ins, a, d: [ret(st, C(64, 0))])
        M(r"^sa_element$", self.element)
        M(r"^sa_not_list$", self.not_list)
        M(r"^sa_parse_called$", self.on_parse)
        M(r"^sa_gas_called$", self.on_gas)
        M(r"^sa_run_called$", self.on_run)
        M(r"^sa_got_gas$", self.got_gas)
        M(r"^sa_got_result$", self.got_result)
        E.hooks["precall"] = self.precall
        E.hooks["outcome"] = self.outcome
        E.hooks["throw"] = self.on_throw
        E.hooks["terminate"] = lambda E, st, d: E.report("exception", st, "the process is ended by %s" % d)

    def kind(self, E, st, ins, a, d):
        where = cval(a[0])
        out = []
        some = (INT, BOOL, STRING, OBJECT, ARRAY)
        given = dict(st.ghost.get("args", ()))
        if st.ghost.get("history"):
            some = (STRING, ARRAY)
        elif where and any(given.get(i) != STRING for i in range(1, where)) or where == 3:
            some = (STRING,)      # what follows an argument that is wrong already
        for k in some:
            s = st.copy()
            if k != ARRAY and where == 0:
                s.ghost["notlist"] = 1
            s.ghost["args"] = s.ghost.get("args", ()) + ((where, k),)
            s.note("argument %s is %s %s" % ("list" if where == 0 else "number %d" % where, "an" if KINDS[k][0] in "aio" else "a", KINDS[k]))
            out.append(ret(s, C(32, k)))
        return out

    def text(self, E, st, ins, a, d):
        s = E.handle(st, a[0])
        if s is None:
            return []
        if st.ghost.get("opname") == "scrypt":
            # the operation walks over its text in steps of two: a few lengths here, every length in C15
            out = []
            first = st.ghost["args"][-1][0] <= 1
            for t in (b"", b"a1F", b"g", b"0" * 161) if first else (b"",):
                x = st.copy()
                x.mut(s).seq = models.const_seq(t)
                out.append(ret(x))
            return out
        g = ("G", fresh("text"), freshlen(E, st))
        st.mut(s).seq = (g,)
        if st.ghost.get("running"):
            st.ghost["results"] = ("@seq", st.ghost["results"][1] + (g,))
        return [ret(st)]

    def abstract_gas(self, E, st, ins, a, d):
        v = L(64, sym(fresh("gas")))
        st.ghost["thegas"] = v
        return [ret(st, v)]

    def number_ctor(self, E, st, ins, a, d):
        o = E.deref(st, a[0], 1, "construction of an integer")
        if o is None:
            return []
        if a[0][2] == ZERO:
            m = st.mut(a[0][1])
            m.init = "unk"; m.attr["number"] = 1
        return [ret(st)]

    def parser_ctor(self, E, st, ins, a, d):
        q = seqof(E, st, a[1])
        if q is None:
            return []
        self.count("parse")
        if "argtext" in st.ghost:
            E.oblige("interface", st)
            if q != st.ghost["argtext"][1]:
                E.report("interface", st, "the operation is not built from the given argument text")
                return []
        if "parser" in st.ghost:
            E.report("interface", st, "the argument text is read more than once")
            return []
        out = []
        for ok in (0, 1):
            s = st.copy()
            s.ghost["parser"] = ok
            s.note("the argument text %s" % ("parses" if ok else "does not parse"))
            out.append(ret(s))
        return out

    def parser_ok(self, E, st, ins, a, d):
        return [ret(st, C(1, st.ghost["parser"]))]

    def parser_root(self, E, st, ins, a, d):
        if not st.ghost.get("parser"):
            E.report("interface", st, "the value of a failed parse is used")
            return []
        oid = st.ghost.get("root")
        if oid is not None:
            return [ret(st, oid)]
        oid = st.new(Obj("ext", const(24), "undef", tag="the parsed value"))
        st.ghost["root"] = P(oid)
        fn = self.prog.one(r"^sa_root$")

        def done(E, s, kind, v, f):
            return [(kind, s, P(oid) if kind == "ret" else v)]
        E.push(st, fn, [P(oid)], onret=done)
        return PUSHED

    def print_value(self, E, st, ins, a, d):
        return self.printed(E, st, a[0], a[1], d)

    def print_container(self, E, st, ins, a, d):
        return self.printed(E, st, a[0], a[1], d)

    def printed(self, E, st, v, os, d):
        if st.ghost.get("history"):
            name = "sa_examine" if d.startswith("json::Value::") else "sa_examine_array"
            fn = self.prog.functions.get(name)
            if fn is None or d.startswith("json::Object::"):
                E.report("results", st, "what is printed is not a list")
                return []

            def done(E, s, kind, x, f):
                if kind == "ret":
                    self.compare(E, s)
                    return [(kind, s2, None) for s2 in self.emit_printed(E, s, os)]
                return [(kind, s, x)]
            E.push(st, fn, [v], onret=done)
            return PUSHED
        return [ret(s) for s in self.emit_printed(E, st, os)]

    def emit_printed(self, E, st, os):
        g = ("G", fresh("printed"), freshlen(E, st), "nonul")
        k = st.heap[os[1]].cells.get(os[2]) if os[0] == "p" else None
        if k is None or k[1][0] != "S":
            E.give_up(st, "a value is printed to an unknown stream")
            return [st]
        o = st.mut(k[1][1])
        o.seq = o.seq + (g,)
        st.ghost["printed"] = ("@seq", st.ghost.get("printed", ("@seq", ()))[1] + (g,))
        return [st]

    # ------------------------------------------------------------ history (C08)
    def on_parse(self, E, st, ins, a, d):
        E.oblige("once", st)
        if st.ghost.get("parsed"):
            E.report("once", st, "the arguments are parsed a second time")
            return []
        st.ghost["parsed"] = 1
        root = st.ghost.get("root")
        if root is None:
            E.report("once", st, "arguments are parsed before the text was read")
            return []
        return [ret(st)]

    def need_ok(self, E, st, what):
        E.oblige("order", st)
        if not st.ghost.get("parsed"):
            E.report("order", st, "%s before the arguments are parsed" % what)
            return False
        if st.ghost.get("okparse") != 1:
            E.report("order", st, "%s although parsing the arguments failed" % what)
            return False
        return True

    def on_gas(self, E, st, ins, a, d):
        st.ghost["computed"] = st.ghost.get("computed", 0) + 1
        return [ret(st)] if self.need_ok(E, st, "gas is computed") else []

    def on_run(self, E, st, ins, a, d):
        if not self.need_ok(E, st, "the operation is run"):
            return []
        if st.ghost.get("runs"):
            E.report("once", st, "one call runs the operation twice")
            return []
        st.ghost["runs"] = 1
        st.ghost["running"] = 1
        st.ghost["results"] = ("@seq", ())
        return [ret(st)]

    def got_gas(self, E, st, ins, a, d):
        E.oblige("refusal", st)
        if not st.ghost.get("parsed") and not st.ghost.get("notlist"):
            E.report("once", st, "a gas estimate without parsing the arguments")
        elif st.ghost.get("okparse") != 1:
            if not isconst(a[0]) or cval(a[0]) != REFUSAL:
                E.report("refusal", st, "the gas estimate of a refused operation is not the refusal gas")
        elif st.ghost.get("computed") != 1 or a[0] != st.ghost.get("thegas"):
            E.report("refusal", st, "the gas estimate is not what the operation computed")
        if st.ghost.get("runs"):
            E.report("order", st, "a gas estimate runs the operation")
        return self.next_call(st)

    def next_call(self, st):
        for k in ("computed", "thegas", "runs", "results", "okrun", "running", "printed"):
            st.ghost.pop(k, None)
        return [ret(st)]

    def got_result(self, E, st, ins, a, d):
        E.oblige("refusal", st)
        v = a[0]
        null = v[0] == "p" and v[1] == NULLOID
        if not st.ghost.get("parsed") and not st.ghost.get("notlist"):
            E.report("once", st, "a run without parsing the arguments")
        elif st.ghost.get("okparse") != 1 or st.ghost.get("okrun") != 1:
            if not null:
                E.report("refusal", st, "a refused or failed run gives a result")
        elif null:
            E.report("refusal", st, "a successful run gives no result")
        else:
            for s, q in models.cstr_seq(E, st, v):
                if q != st.ghost.get("printed", ("@seq", None))[1] or len(q) != 1:
                    E.report("results", s, "the result is not the printed list of results")
        if not null and v[0] == "p":
            st.heap.pop(v[1], None)
        return self.next_call(st)

    def element(self, E, st, ins, a, d):
        q = seqof(E, st, a[0]) if not (a[0][0] == "p" and a[0][1] == NULLOID) else (("other", 0, 0),)
        if q is None:
            return []
        st.ghost["seen"] = st.ghost.get("seen", ()) + (("@seq", q),)
        return [ret(st)]

    def compare(self, E, st):
        """the printed value must be the list of exactly this run's results"""
        E.oblige("results", st)
        got = [x[1] for x in st.ghost.pop("seen", ())]
        want = st.ghost.get("results", ("@seq", None))[1]
        if want is None or st.ghost.get("okrun") != 1:
            E.report("results", st, "results are printed although no run succeeded")
        elif got == ["not a list"]:
            E.report("results", st, "what is printed is not a list")
        elif len(got) != len(want):
            E.report("results", st, "the printed list has %d element(s) where this run gave %d" % (len(got), len(want)))
        elif any(g != (w,) for g, w in zip(got, want)):
            E.report("results", st, "the printed list does not hold this run's results")

    def not_list(self, E, st, ins, a, d):
        st.ghost["seen"] = (("@seq", "not a list"),)
        return [ret(st)]

    def field(self, E, st, p, off, size, ty):
        if p is None or p[0] != "p" or p[1] not in st.heap:
            return None
        o = st.heap[p[1]]
        c = o.cells.get(add(p[2], const(off)))
        if c is None or c[0] != size:
            return None
        return c[1]

    # ------------------------------------------------------------ calls into the operation
    def precall(self, E, st, ins, fn, args):
        d = fn.dem
        m = re.match(r"^json::Value::(to|as)(String|Integer|Object|Array|Boolean)(\[abi:cxx11\])?\(\)( const)?$", d)
        if m and args and args[0][0] == "p" and args[0][1] in st.heap:
            want = {"String": STRING, "Integer": INT, "Object": OBJECT, "Array": ARRAY, "Boolean": BOOL}[m.group(2)]
            t = self.field(E, st, args[0], 8, 4, "i32")
            if t is not None and isconst(t):
                E.oblige("type", st)
                if cval(t) != want:
                    if not any(f.fn.dem.startswith("sa_") for f in st.frames[-1:]):
                        E.report("type", st, "%s argument is read as %s" % (KINDS[cval(t)] if cval(t) < 6 else "corrupt", KINDS[want]))
                        return []
            return None
        if d.startswith("SaOp::parse("):
            if not any(f.fn.dem == d for f in st.frames):
                def done(E, s, kind, v, f):
                    if kind == "ret":
                        s.ghost["okparse"] = cval(v) & 1
                        s.note("parsing the arguments %s" % ("succeeds" if cval(v) & 1 else "fails"))
                    return [(kind, s, v)]
                E.push(st, fn, args, onret=done)
                return PUSHED
        if d.startswith("SaOp::run("):
            def done(E, s, kind, v, f):
                s.ghost.pop("running", None)
                if kind == "ret":
                    s.ghost["okrun"] = cval(v) & 1
                    s.note("the run %s with %d result(s)" % ("succeeds" if cval(v) & 1 else "fails", len(s.ghost["results"][1])))
                return [(kind, s, v)]
            E.push(st, fn, args, onret=done)
            return PUSHED
        if st.ghost.get("history"):
            if d.startswith("eni::EniBase::EniBase("):
                def done(E, s, kind, v, f):
                    s.ghost["built"] = 1
                    return [(kind, s, v)]
                E.push(st, fn, args, onret=done)
                return PUSHED
            return None
        if d.startswith("eni::EniBase::EniBase("):
            n = st.ghost.get("built", 0) + 1
            st.ghost["built"] = n
            if n > 1:
                E.report("interface", st, "more than one operation is built")
                return []
            st.ghost["op"] = args[0]
            return None
        if d == "eni::EniBase::~EniBase()":
            st.ghost["destroyed"] = st.ghost.get("destroyed", 0) + 1
            E.oblige("interface", st)
            if st.ghost["destroyed"] > 1:
                E.report("interface", st, "the operation is destroyed twice")
                return []
            return None
        if d in ("eni::EniBase::getGas()", "eni::EniBase::start()"):
            what = "gas" if "Gas" in d else "run"
            E.oblige("interface", st)
            if st.ghost.get("asked"):
                E.report("interface", st, "the operation is asked more than once")
                return []
            if st.ghost.get("destroyed"):
                E.report("interface", st, "the operation is asked after it was destroyed")
                return []
            if what != st.ghost["what"]:
                E.report("interface", st, "the operation is asked for its %s" % ("gas" if what == "gas" else "result"))
                return []
            st.ghost["asked"] = 1

            def done(E, s, kind, v, f):
                if kind == "ret":
                    s.ghost["answer"] = v
                return [(kind, s, v)]
            E.push(st, fn, args, onret=done)
            return PUSHED
        return None

    # ------------------------------------------------------------ end of an operation
    def on_throw(self, E, st, ti, v):
        pass

    def refused(self, st):
        """does the argument list lack what the operation needs?"""
        need = NEED.get(st.ghost["opname"])
        if need is None:
            return None
        a = dict(st.ghost.get("args", ()))
        if 0 not in a:
            return None
        if a[0] != ARRAY:
            return True
        return any(a.get(i + 1) != k for i, k in enumerate(need))

    def outcome(self, E, st, kind, val):
        g = st.ghost
        if g.get("history"):
            if kind == "throw":
                E.report("exception", st, "an exception leaves the operation (%s)" % val[0], "eni::EniBase")
            return
        name = "%s_%s" % (g["opname"], g["what"])
        E.oblige("interface", st, name)
        if kind == "throw":
            E.report("exception", st, "an exception leaves %s (%s)" % (name, val[0]), name)
            return
        if kind == "exit":
            if g.get("parser") != 0:
                E.report("interface", st, "%s ends the process although its argument text parses" % name, name)
            return
        if kind != "ret":
            return
        if g.get("parser") == 0:
            E.report("interface", st, "%s goes on although its argument text does not parse" % name, name)
            return
        if g.get("built", 0) != 1 or g.get("destroyed", 0) != 1 or not g.get("asked"):
            E.report("interface", st, "%s: built %d, asked %d, destroyed %d time(s)" % (name, g.get("built", 0), g.get("asked", 0), g.get("destroyed", 0)), name)
            return
        op = g["op"]
        if op[1] in st.heap and st.heap[op[1]].kind == "heap" and st.heap[op[1]].life == "live":
            E.report("interface", st, "the memory of the operation is not released", name)
        null = val[0] == "p" and val[1] == NULLOID
        o = st.heap.get(val[1]) if val[0] == "p" and not null else None
        ans = g.get("answer")
        if not null:
            if o is None or o.kind != "heap" or o.life != "live" or o.attr.get("by") != "malloc" or val[2] != ZERO:
                E.report("interface", st, "%s returns memory that the caller cannot release with free" % name, name)
                return
            for oid, x in st.heap.items():
                if oid != val[1] and x.life == "live" and x.kind in ("global", "heap", "ext"):
                    if any(c[1][0] == "p" and c[1][1] == val[1] for c in x.cells.values()):
                        E.report("interface", st, "%s keeps a pointer to the memory it returns" % name, name)
        ref = self.refused(st)
        if g["what"] == "gas":
            if null:
                E.report("interface", st, "%s returns no gas" % name, name)
                return
            c = o.cells.get(ZERO)
            if not E.ent(st, sub(o.size, const(8))):
                E.report("interface", st, "%s returns less memory than a gas value needs" % name, name)
            elif c is None or c[0] != 8 or c[1] != ans:
                same = False
                if c is not None and c[0] == 8 and c[1][0] in ("l", "t") and ans is not None and ans[0] in ("l", "t"):
                    e = sub(E.lin_of(st, c[1]), E.lin_of(st, ans))
                    same = E.ent(st, e) and E.ent(st, scale(e, -1))
                if not same:
                    E.report("interface", st, "%s does not return the gas the operation reported" % name, name)
            if ref is not None:
                E.oblige("refused", st, name)
                if ref and not (c and isconst(c[1]) and cval(c[1]) == REFUSAL):
                    E.report("refused", st, "%s gives gas for an argument list it must refuse" % name, name)
        else:
            if ans != val:
                E.report("interface", st, "%s does not return the result the operation reported" % name, name)
            if ref is not None:
                E.oblige("refused", st, name)
                if ref and not null:
                    E.report("refused", st, "%s gives a result for an argument list it must refuse" % name, name)
        E.oblige("cipher", st, "%s: release of what was taken" % name)
        for k, v in g.items():
            if k.startswith("held"):
                E.report("cipher", st, "%s is never released" % st.heap[v[1]].attr["cipher"], name)

    # ------------------------------------------------------------ helpers of the operations
    def scrypt(self, E, st, ins, a, d):
        for p, n, w in ((a[0], 80, 0), (a[1], 32, 1)):
            o = E.deref(st, p, n, "access by the hash")
            if o is None or E.bounds(st, o, p[2], n, "access by the hash") is None:
                return []
        # the digest itself does not matter here (C15 takes any)
        s = E.fill_bytes(st, a[1], C(8, 0), const(32))
        return [] if s is None else [ret(s)]

    def hex2str(self, E, st, ins, a, d):
        q = seqof(E, st, a[0])
        if q is None:
            return []
        no = st.copy()
        h = E.handle(st, a[1])
        if h is None:
            return []
        st.mut(h).seq = (("G", fresh("decoded"), freshlen(E, st)),)
        return [ret(no, C(1, 0)), ret(st, C(1, 1))]

    def str2hex(self, E, st, ins, a, d):
        q = seqof(E, st, a[0])
        h = E.handle(st, a[1])
        if q is None or h is None:
            return []
        st.mut(h).seq = (("G", fresh("hex"), scale(E.seq_len(st, q), 2), "nonul"),)
        return [ret(st, C(1, 1))]

    # ------------------------------------------------------------ the cipher library
    def cobj(self, st, kind):
        oid = st.new(Obj("ext", const(16), "unk", tag=kind, attr={"cipher": kind}))
        i = 0
        while "held%d" % i in st.ghost:
            i += 1
        st.ghost["held%d" % i] = P(oid)      # found even when nothing else refers to it any more
        return oid

    def released(self, st, oid):
        st.mut(oid).life = "freed"
        for k in [k for k, v in st.ghost.items() if k.startswith("held") and v == P(oid)]:
            del st.ghost[k]

    def bio_new(self, E, st, ins, a, d):
        E.oblige("cipher", st)
        if a[0][0] == "p" and a[0][1] == NULLOID:
            return [ret(st, NULL)]
        if isconst(a[1]) and sval(a[1]) < 0:
            r = models.cstr_seq(E, st, a[0])
            if not r:
                return []
            st = r[0][0]
        else:
            o = E.deref(st, a[0], 1, "read of a key")
            n = E.lin_of(st, a[1])
            if o is None or E.bounds(st, o, a[0][2], n, "read of a key") is None:
                return []
        no = st.copy()
        no.note("BIO_new_mem_buf fails")
        oid = self.cobj(st, "BIO")
        if a[0][0] == "p":
            st.mut(oid).cells[const(8)] = (8, P(a[0][1]))
        return [ret(no, NULL), ret(st, P(oid))]

    def live(self, E, st, v, kind, what):
        if v[0] == "p" and v[1] == NULLOID:
            E.report("cipher", st, "%s with a null %s" % (what, kind))
            return None
        if v[0] == "u":
            E.report("cipher", st, "%s with an uninitialised %s" % (what, kind))
            return None
        if v[0] != "p" or v[1] not in st.heap:
            raise Undecided("%s with an unknown %s" % (what, kind))
        o = st.heap[v[1]]
        if o.attr.get("cipher") != kind:
            E.report("cipher", st, "%s with something that is not a %s" % (what, kind))
            return None
        if o.life != "live":
            E.report("cipher", st, "%s with a released %s" % (what, kind))
            return None
        return o

    def bio_free(self, E, st, ins, a, d):
        if a[0][0] == "p" and a[0][1] == NULLOID:
            return [ret(st, C(32, 0))]
        E.oblige("cipher", st)
        if self.live(E, st, a[0], "BIO", "release") is None:
            return []
        self.released(st, a[0][1])
        return [ret(st, C(32, 1))]

    def pem_read(self, E, st, ins, a, d):
        E.oblige("cipher", st)
        if self.live(E, st, a[0], "BIO", d) is None:
            return []
        src = st.heap[a[0][1]].cells.get(const(8))
        if src is not None:
            o = st.heap.get(src[1][1])
            if o is None or o.life != "live":
                E.report("cipher", st, "the key text is read after it was released")
                return []
        self.count("key")
        no = st.copy()
        no.note("%s fails" % d)
        oid = self.cobj(st, "RSA key")
        k = sym(fresh("keysize"))
        E.assume(st, sub(k, ONE)); E.assume(st, sub(const(1 << 20), k))
        st.mut(oid).cells[ZERO] = (4, L(32, k))
        if a[1][0] == "p" and a[1][1] != NULLOID:
            E.give_up(st, "key read into an existing one")
        return [ret(no, NULL), ret(st, P(oid))]

    def keysize(self, st, v):
        return st.heap[v[1]].cells[ZERO][1][2]

    def rsa_size(self, E, st, ins, a, d):
        E.oblige("cipher", st)
        if self.live(E, st, a[0], "RSA key", d) is None:
            return []
        return [ret(st, L(32, self.keysize(st, a[0])))]

    def rsa_free(self, E, st, ins, a, d):
        if a[0][0] == "p" and a[0][1] == NULLOID:
            return [ret(st)]
        E.oblige("cipher", st)
        if self.live(E, st, a[0], "RSA key", "release") is None:
            return []
        self.released(st, a[0][1])
        return [ret(st)]

    def rsa_op(self, E, st, ins, a, d):
        E.oblige("cipher", st)
        self.count(d)
        if self.live(E, st, a[3], "RSA key", d) is None:
            return []
        size = self.keysize(st, a[3])
        encrypt = d.endswith("encrypt")
        if not isconst(a[4]):
            E.give_up(st, "padding mode not known")
        elif cval(a[4]) != NO_PADDING and encrypt:
            if d == "RSA_public_encrypt" or cval(a[4]) != PKCS1:
                E.report("cipher", st, "%s pads randomly (mode %d)" % (d, sval(a[4])))
                return []
        rs = [(s, e) for s, e in E.norm_s(st, 32, E.lin_of(st, a[0]))] if a[0][0] in ("l", "t") else []
        out = []
        for s, n in rs:
            # input
            q = self.region(E, s, a[1], n, "message given to the cipher library")
            if q is None:
                continue
            msg = s.ghost.get("message")
            if msg is not None:
                if not self.is_message(E, s, q, msg[1], size, encrypt):
                    E.report("cipher", s, "the cipher library is not given exactly the message")
                    continue
            # output
            o = E.deref(s, a[2], 1, "output of the cipher library")
            if o is None:
                continue
            sz = E.obj_size(s, o)
            if o.kind == "seq":
                sz = E.seq_len(s, o.seq)
            E.oblige("cipher", s)
            if sz is not None and not (E.ent(s, a[2][2]) and E.ent(s, sub(sub(sz, a[2][2]), size))):
                E.report("cipher", s, "the output buffer of the cipher library may be smaller than the key")
                continue
            no = s.copy()
            no.note("%s fails" % d)
            self.fill(E, no, a[2], None, None)
            out.append(ret(no, C(32, (1 << 32) - 1)))
            k = sym(fresh("outlen"))
            E.assume(s, k); E.assume(s, sub(size, k))
            s.note("%s succeeds" % d)
            g = ("G", fresh("cipher"), k)
            self.fill(E, s, a[2], g, k)
            s.ghost["out"] = ("@seq", (g,))
            out.append(ret(s, L(32, k)))
        return out

    def fill(self, E, st, v, g, k):
        """the library wrote g at the start of the buffer; what follows is not set by it"""
        o = st.mut(v[1])
        if o.kind == "seq":
            n = E.seq_len(st, o.seq)
            if g is None:
                o.seq = (("G", ("unset", fresh("u")), n),)
            else:
                o.seq = (g, ("G", ("unset", fresh("u")), sub(n, k)))
        else:
            o.cells = {}
            o.init = "undef" if g is None else "unk"
            if g is not None:
                o.attr["content"] = ("@seq", (g, ("G", ("unset", fresh("u")), sub(o.size, k)) if o.size is not None else g))

    def region(self, E, st, v, n, what):
        o = E.deref(st, v, 1, what)
        if o is None:
            return None
        if not E.ent(st, n):
            E.report("cipher", st, "negative length of the %s" % what)
            return None
        sz = E.seq_len(st, o.seq) if o.kind == "seq" else o.size
        if sz is not None and not (E.ent(st, v[2]) and E.ent(st, sub(sz, add(v[2], n)))):
            E.report("cipher", st, "the %s is longer than what is there" % what)
            return None
        r = models.seq_between(E, st, v, P(v[1], add(v[2], n)))
        return r[0][1] if r else None

    def is_message(self, E, st, q, msg, size, encrypt):
        if len(q) < len(msg) or q[:len(msg)] != msg:
            return False
        rest = q[len(msg):]
        if not rest:
            return True
        return encrypt and all(c[0] == "b" and isconst(c[1]) and cval(c[1]) == 0 or c[0] == "G" and is_zero_fill(c) for c in rest)

    # ------------------------------------------------------------ drivers
    def start(self, name, what):
        E = self.E
        st = St()
        n = sym("len")
        E.assume(st, n); E.assume(st, sub(const(1 << 31), n))
        q = (("G", "argument", n, "nonul"),)
        s = st.new(Obj("seq", None, tag="the argument text", attr={"nul": True}, seq=q))
        st.ghost["argtext"] = ("@seq", q)
        st.ghost["opname"] = name
        st.ghost["what"] = what
        return st, P(s)

    def run_interface(self, only=None):
        done = []
        self.E.hooks["gbyte"] = lambda E, st, *a: [(st, ("t", 8, ("s", E.newfin(st, ALLBYTES), 8)))]
        for fn in sorted(self.prog.functions.values(), key=lambda f: f.name):
            m = re.match(r"^(\w+)_(gas|run)$", fn.name)
            if m and fn.defined and (m.group(1) == only if only else fn.repo and m.group(1) not in ("sa", "anyop")):
                st, arg = self.start(m.group(1), m.group(2))
                self.E.heads.clear()
                self.E.stop_at = None; self.E.max_steps = self.E.stats["steps"] + 400000
                self.E.explore(st, fn, [arg])
                done.append(fn.name)
        return done

    def run_history(self):
        E = self.E
        st = St()
        st.ghost["history"] = 1
        h = st.new(Obj("heap", const(32), "undef", tag="argument"))
        E.set_handle(st, P(h), (("G", "argument", freshlen(E, st)),))
        E.explore(st, self.prog.one(r"^sa_history$"), [P(h)])

    def run_primitives(self):
        """each RSA primitive by itself, for any message and key"""
        E = self.E
        done = []
        for fn in sorted(self.prog.functions.values(), key=lambda f: f.name):
            m = re.match(r"^eni_crypto::rsa::(pub|priv)_(encrypt|decrypt)\((RSA|rsa_st)&, std::string const&, std::string&\)$", fn.dem)
            if not (m and fn.defined):
                continue
            st = St()
            st.ghost["prim"] = fn.dem
            key = self.cobj(st, "RSA key")
            k = sym(fresh("keysize"))
            E.assume(st, sub(k, ONE)); E.assume(st, sub(const(1 << 20), k))
            st.mut(key).cells[ZERO] = (4, L(32, k))
            n = sym("msglen")
            E.assume(st, n); E.assume(st, sub(const(1 << 40), n))
            msg = (("G", "message", n),)
            h = st.new(Obj("ext", const(32), "undef", tag="message"))
            E.set_handle(st, P(h), msg)
            r = st.new(Obj("ext", const(32), "undef", tag="result"))
            E.set_handle(st, P(r), (("G", "old result", freshlen(E, st)),))
            st.ghost["message"] = ("@seq", msg)
            st.ghost["key"] = P(key)
            enc = m.group(2) == "encrypt"
            name = fn.dem
            st.ghost.pop("held0", None)

            def outcome(E, s, kind, val, n=n, k=k, enc=enc, r=r, name=name, key=key):
                E.oblige("cipher", s, name)
                if kind != "ret":
                    E.report("cipher", s, "%s ends by %s" % (name, kind), name)
                    return
                if s.heap[key].life != "live":
                    E.report("cipher", s, "the caller's key is released", name)
                for k2, x in s.ghost.items():
                    if k2.startswith("held"):
                        E.report("cipher", s, "%s is never released" % s.heap[x[1]].attr["cipher"], name)
                for s2, t in E.truth(s, val if val[1] == 1 else E.trunc(s, val, 1)):
                    out = s2.ghost.get("out")
                    if not t:
                        if out is not None:
                            E.report("cipher", s2, "a successful cipher operation is reported as failed", name)
                        continue
                    if out is None:
                        E.report("cipher", s2, "success is reported although the cipher library did not report it", name)
                        continue
                    if enc and E.possible(s2, sub(n, add(k, ONE))):
                        E.report("cipher", s2, "a message longer than the key is not refused", name)
                        continue
                    q = s2.heap[E.handle(s2, P(r))].seq
                    if q == out[1]:
                        continue
                    bad = [c for c in q if c[0] == "G" and isinstance(c[1], tuple) and c[1][0] == "unset"]
                    if bad:
                        E.report("cipher", s2, "the result holds bytes the cipher library did not report", name)
                    elif enc:
                        E.report("cipher", s2, "the result is not exactly what the cipher library reported", name)
                    elif not (len(q) <= 1 and all(self.prefix_of(c, out[1][0]) for c in q)):
                        E.report("cipher", s2, "the result is not taken from what the cipher library reported", name)
            E.hooks["outcome"] = outcome
            E.hooks["cutcstr"] = self.cut
            E.heads.clear()
            E.explore(st, fn, [P(key), P(h), P(r)])
            done.append(fn.dem)
        E.hooks["outcome"] = self.outcome
        return done

    def cut(self, E, st, o, v, k):
        return None

    def prefix_of(self, c, g):
        return c == g or c[0] == "G" and isinstance(c[1], tuple) and c[1][0] in ("prefixof",) and c[1][1] == g[1]


def is_zero_fill(c):
    return isinstance(c[1], tuple) and c[1][0] == "rep" and c[1][1] == 0


BASE = ["ops", "eni", "array", "notation", "object", "value", "exc"]


def concerns_interface(f):
    """memory findings that are about handing over results, not about one operation's own work"""
    return f.kind != "memory" or "release" in f.msg or "no longer" in f.msg or re.search(r"\(\w+_(gas|run)\)$", f.where)


def decide(pid, kinds, tier):
    import properties
    r = properties.Result()
    if pid == "C08":
        c = Ops(ir.load(BASE))
        c.run_history()
        r.headline = "abstract interpretation of every history of gas estimates and runs on an operation whose own code is arbitrary"
        r.rules = ["parse is entered at most once and before gas or run; gas and run only after it returned true",
                   "each answer is the refusal gas, no result, the operation's own gas, or the printed list of exactly this run's results"]
        r.add_engine(c.E, kinds)
        r.extra["outcomes"] = len(c.E.outcomes)
        if not c.E.checked:
            raise ir.AnalysisBroken("nothing analysed")
        return r
    if pid == "C14":
        c = Ops(ir.load(["crypto"]))
        r.extra["primitives"] = c.run_primitives()
        r.add_engine(c.E, kinds)
        if not r.extra["primitives"]:
            raise ir.AnalysisBroken("no RSA primitive found")
        c = Ops(ir.load(BASE + ["crypto"]))
        r.extra["operations"] = c.run_interface()
        r.add_engine(c.E, kinds)
        r.extra["cipher_library_calls"] = c.calls
        r.headline = "abstract interpretation of the RSA primitives and operations for every key size, message length and library outcome"
        r.rules = ["output buffers are at least RSA_size long; input is exactly the message and readable",
                   "results are used only after success and only up to the reported length; no random padding",
                   "every BIO and key obtained is live until its single release on every path"]
        return r
    if pid == "C09":
        c = Ops(ir.load(BASE))       # the interface of an operation whose own code is arbitrary
        r.extra["operations"] = c.run_interface("anyop")
        r.add_engine(c.E, kinds)
    tus = ["crypto", "escrypt"] + (["reverse", "json"] if pid in ("C02", "C09") else [])
    for tu in tus:
        c = Ops(ir.load(BASE + [tu]))
        names = c.run_interface()
        r.extra.setdefault("operations", []).extend(names)
        r.add_engine(c.E, kinds, None if pid != "C09" else concerns_interface)
    if not r.extra["operations"]:
        raise ir.AnalysisBroken("no exported operation found")
    if pid == "C02":
        r.headline = "abstract interpretation of every exported operation for each shape of argument list (length, and type of each argument)"
        r.rules = ["a value is read as a type only when its tag says so", "an argument list that lacks what the operation needs gives %d gas or no result" % REFUSAL,
                   "no exception leaves the operation"]
    else:
        r.headline = "abstract interpretation of every exported gas and run function for each outcome of parsing and of the operation"
        r.rules = ["one operation is built from the given text, asked once and destroyed once on each returning path",
                   "what is returned is what the operation reported, allocated by malloc, not released and not referenced by anything that remains"]
    return r


if __name__ == "__main__":
    import sys, time
    t = time.time()
    what = sys.argv[1]
    if what == "hist":
        prog = ir.load(["ops", "eni", "array", "notation", "object", "value", "exc"])
        c = Ops(prog); print("load", time.time() - t); c.run_history()
    elif what == "prim":
        prog = ir.load(["crypto"])
        c = Ops(prog); print("load", time.time() - t); print(c.run_primitives())
    else:
        prog = ir.load(["ops", "eni", "array", "notation", "object", "value", "exc"] + sys.argv[2:])
        c = Ops(prog); print("load", time.time() - t); print(c.run_interface())
    E = c.E
    print("time", time.time() - t, E.stats)
    print("outcomes", len(E.outcomes), "unmodelled", E.unmodelled)
    print({k: len([1 for x in E.checked if x[0] == k]) for k in set(x[0] for x in E.checked)})
    for f in list(E.findings.values())[:6]:
        print(f.text())
    print("UNDECIDED", len(E.undecided))
    for f in list(E.undecided.values())[:6]:
        print(f.text())
