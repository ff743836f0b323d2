"""C01: nothing but the argument text reaches the gas estimate and the result of a shipped operation.

An effect analysis over the call graph from every exported gas and run function: which outside information can be
asked for, which memory that survives a call can be written, where an address turns into data, where the cipher
library is asked for something random; and the reads of uninitialised memory found by the abstract interpretation
of the operations."""
import re
import ir
from engine import Finding

UNITS = ["eni", "types", "exc", "array", "notation", "object", "value", "crypto", "escrypt", "scrypt", "reverse", "json"]
OPS = ["crypto", "escrypt", "reverse", "json"]

# sources of something else than the arguments: (pattern on the demangled name, what it gives)
SOURCES = [
    (r"^(time|clock|gettimeofday|clock_gettime|timespec_get|times|getrusage|ftime|_?_?rdtscp?|localtime(_r)?|gmtime|ctime|asctime|mktime|strftime|sleep|usleep|nanosleep)$", "the time"),
    (r"^std::chrono::.*::now\(\)$", "the time"),
    (r"^llvm\.(x86\.rdtscp?|readcyclecounter|readsteadycounter)", "the time"),
    (r"^(rand|srand|random|srandom|rand_r|[delmnj]rand48|srand48|seed48|arc4random.*|getrandom|getentropy)$", "a random number"),
    (r"^(RAND_\w+|BN_(priv_)?(pseudo_)?rand\w*|RSA_generate_\w+|EVP_(PKEY_keygen|RSA_gen)|RSA_padding_add_(PKCS1_type_2|PKCS1_OAEP\w*|PKCS1_PSS\w*|SSLv23))$", "a random number"),
    (r"^std::random_device::", "a random number"),
    (r"^llvm\.x86\.rd(rand|seed)", "a random number"),
    (r"^(getenv|secure_getenv|setenv|putenv|unsetenv|clearenv)$", "the environment"),
    (r"^(getpid|getppid|gettid|getuid|geteuid|getgid|getegid|gethostname|uname|sysconf|pathconf|get_nprocs(_conf)?|sched_getcpu|getcpu|getrlimit|getcwd|getlogin|isatty|ttyname|pthread_self|syscall|getauxval|sysinfo|gethostid|readlink|realpath|stat|fstat|lstat|access|opendir|readdir)$", "the process or the machine"),
    (r"^std::thread::hardware_concurrency\(\)|^std::this_thread::get_id", "the process or the machine"),
    (r"^(f?open(64|at)?|freopen|creat|fdopen|p?read(v|64)?|fread|fgets?|getc|fgetc|getchar|gets|getline|getdelim|f?scanf|vf?scanf|__isoc\d+_f?scanf|popen|system|exec\w+|fork|vfork|socket|connect|recv\w*|accept|poll|select|mmap|tmpfile|tmpnam|mkstemp|dlopen)$", "a file or another process"),
    (r"^(BIO_new_(file|fp|fd|socket|connect|accept)|BIO_s_(file|fd|socket|connect|accept)|BIO_read_filename|UI_\w+|PEM_read_(?!bio)\w+|ENGINE_\w+|CONF_\w+)$", "a file or the terminal"),
    (r"^std::(basic_)?(i?fstream|filebuf)<?.*::(basic_)?(i?fstream|filebuf|open)\(", "a file"),
    (r"^std::(istream::get|istream::read|getline<|operator>>).*cin", "the terminal"),
    (r"^(setlocale|localeconv|nl_langinfo|uselocale|newlocale)$|^std::locale::(locale\(char const\*\)|locale\(std::string const&\)|global\()", "the locale"),
    (r"^(strtok|strtok_r_|getopt|getopt_long|lgamma|ecvt|fcvt|l64a|strsignal)$", "what the process did before"),
    (r"^(pthread_create|thrd_create)$|^std::thread::_M_start_thread|^std::async", "the schedule of threads"),
    (r"^(malloc_usable_size|mallinfo2?|sbrk|brk|backtrace\w*)$|^llvm\.(frameaddress|returnaddress|addressofreturnaddress)", "memory addresses"),
    (r"^std::ostream::operator<<\(void const\*\)|^std::ostream& std::ostream::_M_insert<void const\*>", "memory addresses"),
    (r"^(std::)?hash<[^<>]*\*>::operator\(\)|^std::hash<[^<>]*\*>::operator\(\)", "memory addresses"),
]
# outside objects that stand for such sources
OUTSIDE = {"environ": "the environment", "__environ": "the environment", "stdin": "the terminal", "_ZSt3cin": "the terminal", "timezone": "the time",
           "program_invocation_name": "the process or the machine", "optind": "what the process did before", "optarg": "what the process did before"}
# library functions whose result is determined by what they are given
PURE = [
    r"^(std|__gnu_cxx)::", r"^(operator (new|delete)|__cxa_|__clang_|_Unwind|__gxx|__dynamic_cast|__assert_fail)",
    r"^llvm\.", r"^(mem(cpy|move|set|cmp|chr|rchr|mem)|explicit_bzero|bzero|str(n?len|n?cmp|n?cpy|n?cat|r?chr|str|spn|cspn|pbrk|dup|ndup|to(u?l?l|d|f|ld)|(n?case)cmp)|bcmp|ato[il]l?|atof|l?l?abs|div|ldiv)$",
    r"^__isoc\d+_(sscanf|strto\w+)$", r"^(sscanf|sprintf|snprintf|vsnprintf|asprintf|printf|fprintf|puts|fputs|fputc|putchar|fwrite|fflush|perror)$",
    r"^(is(alnum|alpha|digit|xdigit|upper|lower|space|punct|print|cntrl|graph|blank|ascii)|to(upper|lower|ascii))$",
    r"^(malloc|calloc|realloc|free|reallocarray|posix_memalign|aligned_alloc|abort|exit|_exit|qsort|bsearch)$",
    r"^(ceil|floor|round|trunc|fabs|fmod|sqrt|pow|exp|log|log2|log10)[fl]?$", r"^(hton|ntoh)[sl]$|^bswap_\d+$|^__bswap_\d+$",
    r"^(SHA\d*(_\w+)?|MD5(_\w+)?|HMAC(_\w+)?|RIPEMD160\w*|EVP_(sha\w+|Digest\w*|MD_CTX_\w+|md5)|PKCS5_PBKDF2_HMAC\w*|EVP_PBE_scrypt)$",
    r"^BIO_(new_mem_buf|new|s_mem|free|free_all|vfree|read|write|puts|gets|ctrl)$", r"^PEM_read_bio_\w+$", r"^(d2i|i2d)_\w+$",
    r"^RSA_(new|free|size|bits|up_ref|public_encrypt|public_decrypt|private_encrypt|private_decrypt|check_key|get0_\w+|flags|test_flags)$",
    r"^BN_(?!(priv_)?(pseudo_)?rand)\w+$", r"^EVP_PKEY_(free|new|get1_RSA|get0_RSA|assign|size|id|base_id)$", r"^(OPENSSL|CRYPTO)_(cleanse|free|malloc|memcmp)$",
    r"^ERR_(clear_error|print_errors(_fp|_cb)?|error_string(_n)?|load_\w+|reason_error_string)$", r"^pthread_(mutex|once|cond|key)\w*$", r"^__errno_location$",
]
SOURCES = [(re.compile(r), w) for r, w in SOURCES]
PURE = [re.compile(r) for r in PURE]
READERS = re.compile(r"^(mem(cmp|chr|rchr|mem)|str\w+|bcmp|ato[il]l?|SHA\d*_Update|BIO_new_mem_buf|printf|fputs|puts|sscanf|__isoc\d+_\w+)$")


def refs(o, kind, out):
    if isinstance(o, list):
        if len(o) >= 2 and o[0] == kind and isinstance(o[1], str) and (kind != "g" or len(o) == 3):
            out.add(o[1])
        else:
            for x in o:
                refs(x, kind, out)
    elif isinstance(o, dict):
        for x in o.values():
            refs(x, kind, out)
    return out


def params_of(dem):
    """the parameter types in a demangled name"""
    m = re.search(r"\((.*)\)( const)?( &&?)?$", dem)
    if not m:
        return None
    s, out, d = m.group(1), [], 0
    cur = ""
    # the last parenthesised group
    k = len(dem) - 1
    e = dem.rfind(")")
    d = 0
    for i in range(e, -1, -1):
        d += dem[i] == ")"
        d -= dem[i] == "("
        if d == 0:
            s = dem[i + 1:e]
            break
    d = 0
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Effects:
    def __init__(self, prog, r, roots=None, sources=()):
        self.prog, self.r = prog, r
        self.found = {}
        self.roots = roots or sorted(f.name for f in prog.functions.values() if f.defined and f.tu in OPS and re.match(r"^[A-Za-z_]\w*_(gas|run)$", f.dem))
        self.more = [(re.compile(x), w) for x, w in sources]
        self.reach()
        self.sources()
        self.states()
        self.addresses()

    def report(self, msg, where, chain=(), exact=True, why=None):
        k = (msg, where)
        if k not in self.found:
            f = Finding("hidden", msg, where, list(chain), [], exact, why)
            self.found[k] = f
            (self.r.findings if exact else self.r.undecided).append(f)

    # ------------------------------------------------------------ what can run
    def reach(self):
        p = self.prog
        self.from_ = {n: None for n in self.roots}
        self.globals = {}
        todo = list(self.roots)
        while todo:
            n = todo.pop()
            f = p.functions.get(n)
            if f is None or not f.defined:
                continue
            fs, gs = refs(f.blocks, "f", set()), refs(f.blocks, "g", set())
            gq = list(gs)
            while gq:
                x = gq.pop()
                if x in self.globals:
                    continue
                self.globals[x] = n
                g = p.globals.get(x)
                if g:
                    fs |= refs(g.get("cells"), "f", set())
                    gq += refs(g.get("cells"), "g", set())
            for x in sorted(fs):
                if x not in self.from_:
                    self.from_[x] = n
                    todo.append(x)
        # what initialises the objects used above runs before, with the same rules
        for f in p.functions.values():
            if f.defined and f.name.startswith("_GLOBAL__sub_I") and f.name not in self.from_:
                todo = [(f.name, None)]
                while todo:
                    n, by = todo.pop()
                    if n in self.from_:
                        continue
                    self.from_[n] = by
                    g = p.functions.get(n)
                    if g is not None and g.defined:
                        todo += [(x, n) for x in sorted(refs(g.blocks, "f", set()))]
        self.defined = [p.functions[n] for n in self.from_ if n in p.functions and p.functions[n].defined]
        for f in self.defined:
            self.r.functions.add(f.dem)
        self.initial = set()
        for n in self.from_:
            r = n
            while self.from_[r] is not None:
                r = self.from_[r]
            if r.startswith("_GLOBAL__sub_I"):
                self.initial.add(n)

    def chain(self, n):
        out = []
        while n is not None and len(out) < 12:
            f = self.prog.functions.get(n)
            out.append(f.where() if f is not None and f.defined else n)
            n = self.from_[n]
        return out

    def calls(self, f):
        for b in f.blocks:
            for i in b:
                if i["o"] in ("call", "invoke"):
                    yield i

    # ------------------------------------------------------------ outside information
    def sources(self):
        r = self.r
        unknown = {}
        for f in self.defined:
            for i in self.calls(f):
                if i.get("asm"):
                    r.obligations += 1
                    text = str(i.get("f"))
                    self.report("assembly code whose effects are not known", f.where(i.get("l")), self.chain(f.name), False, "assembly")
                    continue
                fx = i.get("f")
                if not fx or fx[0] != "f":
                    continue
                g = self.prog.functions.get(fx[1])
                dem = g.dem if g is not None else fx[1]
                what = self.kind(dem, g)
                r.obligations += 1
                if what is None:
                    bad = self.special(f, i, dem)
                    if bad:
                        self.report(bad, f.where(i.get("l")), self.chain(f.name))
                        continue
                    if g is None or not g.defined:
                        if not any(rx.search(dem) for rx in PURE):
                            unknown.setdefault(dem, (f, i))
                            continue
                    r.discharged += 1
                elif what:
                    self.report("%s can come to depend on %s: %s is called" % (self.which(f), what, dem), f.where(i.get("l")), self.chain(f.name))
        for dem, (f, i) in unknown.items():
            self.report("call of %s, whose effects are not known" % dem, f.where(i.get("l")), self.chain(f.name), False, "unknown function")
        for n, by in sorted(self.globals.items()):
            base = n.split("@")[0]
            if base in OUTSIDE:
                f = self.prog.functions[by]
                self.report("%s can come to depend on %s: %s is used" % (self.which(f), OUTSIDE[base], base), f.where(), self.chain(by))
        r.extra["outside functions reached"] = len({i for i in self.from_ if i not in self.prog.functions or not self.prog.functions[i].defined})

    def which(self, f):
        n = f.name
        while self.from_[n] is not None:
            n = self.from_[n]
        g = self.prog.functions.get(n)
        return "the answer of %s" % g.dem if n not in self.initial else "an object made before the first call"

    def kind(self, dem, g):
        if g is not None and g.defined and g.repo:
            return None
        for rx, w in SOURCES + self.more:
            if rx.search(dem):
                return w
        return None

    def constant(self, v):
        return int(v[2]) if v[0] == "c" else 0 if v[0] == "null" else None

    def text(self, v):
        if v[0] != "g":
            return None
        g = self.prog.globals.get(v[1])
        if not g or not g.get("cells") or not g["const"]:
            return None
        c = g["cells"][0]
        return bytes.fromhex(c[2])[v[2] - c[0]:] if c[1] == "bytes" else None

    def special(self, f, i, dem):
        """calls that are harmless or not depending on what they are given"""
        a = i["a"]
        if dem == "RSA_public_encrypt":
            pad = self.constant(a[4])
            if pad is None:
                self.report("a padding that is not constant", f.where(i.get("l")), self.chain(f.name), False, "padding")
            elif pad != 3:
                return "the cipher library is asked for random padding"
        elif re.match(r"^PEM_read_bio_", dem):
            if a[2][0] == "null" and a[3][0] == "null":
                return "the cipher library asks the terminal for a pass phrase"
        elif re.match(r"^(v?s?n?f?printf|asprintf)$", dem):
            for v in a[:3]:
                t = self.text(v)
                if t is not None and re.search(rb"%[-+ #0-9.]*[pn]", t) and "f" != dem[0]:
                    return "a memory address is formatted as text"
        elif re.match(r"^(ERR_(get|peek)_(last_)?error\w*)$", dem):
            if "d" in i and self.compared(f, i["d"]):
                return "a decision depends on the error queue, which holds what earlier calls left"
        elif dem == "__errno_location":
            regs = {i["d"]}
            stores = any(j["o"] == "store" and j["a"][1][0] == "r" and self.is_errno(f, j["a"][1][1]) for b in f.blocks for j in b)
            loads = [j for b in f.blocks for j in b if j["o"] == "load" and j["a"][0] == ["r", i["d"]]]
            if not stores and any(self.compared(f, j["d"]) for j in loads):
                return "a decision depends on errno, which holds what earlier calls left"
        return None

    def is_errno(self, f, reg):
        return any(j.get("d") == reg and j.get("f") == ["f", "__errno_location"] for b in f.blocks for j in b)

    def compared(self, f, reg):
        todo, seen = [reg], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for b in f.blocks:
                for j in b:
                    if any(o == ["r", x] for o in ir.operands(j)):
                        if j["o"] in ("icmp", "switch", "select", "br", "ret"):
                            return True
                        if "d" in j and j["o"] not in ("call", "invoke"):
                            todo.append(j["d"])
        return False

    # ------------------------------------------------------------ memory that survives a call
    def states(self):
        p, r = self.prog, self.r
        mine = {n: g for n, g in p.globals.items() if n in self.globals and not g["const"] and not g["decl"]
                and not n.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZGV", "_ZTT", "__dso_handle", "_ZStL8__ioinit"))}
        r.extra["objects that outlive a call"] = sorted(g["dem"] for g in mine.values())
        self.regs = {}      # function -> register -> globals its address comes from
        self.rets = {}
        funcs = [f for f in self.defined if f.name not in self.initial]
        for f in funcs:
            self.regs[f.name] = {}
        self.writes = []
        self.escaped = {}
        change = True
        while change:
            change = False
            for f in funcs:
                change |= self.flow(f, mine)
        for f in funcs:
            self.flow(f, mine, True)
        written = {}
        for g, f, i, how in self.writes:
            written.setdefault(g, []).append((f, i, how))
        for n, g in sorted(mine.items()):
            r.obligations += 1
            bad = False
            for f, i, how in written.get(n, ()):
                if self.once(f, i, n):
                    continue
                bad = True
                self.report("%s keeps something of this call for later ones: %s" % (g["dem"].split("[abi")[0], how), f.where(i.get("l")), self.chain(f.name))
            if n in self.escaped and not bad:
                f, i = self.escaped[n]
                self.report("the address of %s is stored" % g["dem"], f.where(i.get("l")), self.chain(f.name), False, "stored address")
                bad = True
            if not bad:
                r.discharged += 1

    def flow(self, f, mine, final=False):
        R = self.regs[f.name]
        changed = False

        def of(v):
            if v[0] == "g":
                return {v[1]} if v[1] in mine else set()
            if v[0] == "r":
                return R.get(v[1], set())
            return set()

        def put(reg, s):
            nonlocal changed
            if s and not s <= R.get(reg, set()):
                R[reg] = R.get(reg, set()) | s
                changed = True
        boxes = {i["d"] for b in f.blocks for i in b if i["o"] == "alloca"}
        for b in f.blocks:
            for i in b:
                o = i["o"]
                if o in ("getelementptr", "phi", "select", "bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
                    s = set()
                    ops = ir.operands(i)
                    for v in (ops[:1] if o == "getelementptr" else ops[1:] if o == "select" else ops):
                        s |= of(v)
                    put(i["d"], s)
                elif o == "store":
                    v, q = i["a"][0], i["a"][1]
                    s = of(v)
                    if s:
                        if q[0] == "r" and q[1] in boxes:
                            put(("box", q[1]), s)
                        elif final:
                            for g in s:
                                self.escaped.setdefault(g, (f, i))
                    if final:
                        for g in of(q):
                            self.writes.append((g, f, i, "it is written"))
                elif o == "load":
                    q = i["a"][0]
                    if q[0] == "r" and q[1] in boxes and i.get("t") == "ptr":
                        put(i["d"], R.get(("box", q[1]), set()))
                elif o in ("atomicrmw", "cmpxchg"):
                    if final:
                        for g in of(ir.operands(i)[0]):
                            self.writes.append((g, f, i, "it is changed"))
                elif o == "ret":
                    s = set()
                    for v in i.get("a", ()):
                        s |= of(v)
                    if s and not s <= self.rets.get(f.name, set()):
                        self.rets[f.name] = self.rets.get(f.name, set()) | s
                        changed = True
                elif o in ("call", "invoke"):
                    changed |= self.call(f, i, of, put, final)
        return changed

    def call(self, f, i, of, put, final):
        fx = i.get("f")
        name = fx[1] if fx and fx[0] == "f" else None
        g = self.prog.functions.get(name) if name else None
        changed = False
        for k, v in enumerate(i["a"]):
            s = of(v)
            if not s:
                continue
            if name is None:
                if final:
                    for x in s:
                        self.escaped.setdefault(x, (f, i))
                continue
            if g is not None and g.defined and g.name in self.regs:
                R = self.regs[g.name]
                if k < len(g.params) and not s <= R.get(k, set()):
                    R[k] = R.get(k, set()) | s
                    changed = True
                continue
            dem = g.dem if g is not None else name
            if name.startswith("llvm.threadlocal.address"):
                put(i["d"], s)
                continue
            how = self.outside(dem, k, i)
            if how == "returns":
                put(i["d"], s)
            elif how and final:
                for x in s:
                    self.writes.append((x, f, i, "%s changes it" % dem))
        if "d" in i and g is not None and g.name in self.rets:
            put(i["d"], self.rets[g.name])
        return changed

    def outside(self, dem, k, i):
        """does an outside function change what its k-th argument denotes?"""
        if dem.startswith(("llvm.lifetime", "llvm.dbg", "llvm.invariant", "llvm.assume")) or READERS.search(dem):
            return None
        m = re.match(r"^llvm\.mem(cpy|move|set)", dem)
        if m:
            return k == 0
        if re.match(r"^__cxa_(guard|atexit|begin_catch|throw)", dem):
            return None
        ps = params_of(dem)
        if ps is None:
            return True
        n = len(i["a"]) - (1 if "sret" in i else 0)
        j = k - (1 if "sret" in i else 0)
        member = n > len([p for p in ps if p != "void"])
        if member and j == 0:
            if dem.endswith(" const"):
                return None
            if re.search(r"::(begin|end|operator\[\]|at|data|front|back|find|lower_bound|rbegin|rend)\(.*\)$", dem):
                return "returns" if "d" in i and i.get("t") == "ptr" else None
            return True
        if member:
            j -= 1
        if 0 <= j < len(ps):
            t = ps[j]
            return not ("const&" in t or "const*" in t or not re.search(r"[&*]", t))
        return True

    def once(self, f, i, g):
        """the write initialises a local object on the first call, from nothing that depends on the call"""
        acq = None
        for b, blk in enumerate(f.blocks):
            for j in blk:
                if j.get("f") == ["f", "__cxa_guard_acquire"]:
                    acq = (b, j)
                    # the block taken when this call has to initialise
                    t = blk[-1]
                    region, todo = set(), []
                    if t["o"] == "br" and len(t["s"]) == 2:
                        todo = [t["s"][0]]
                    rel = {x for x, bl in enumerate(f.blocks) if any(q.get("f") == ["f", "__cxa_guard_release"] for q in bl)}
                    while todo:
                        x = todo.pop()
                        if x in region or x == t["s"][1]:
                            continue
                        region.add(x)
                        if x not in rel:
                            todo += ir.successors(f.blocks[x][-1])
                    here = [x for x, bl in enumerate(f.blocks) if any(q is i for q in bl)][0]
                    if here in region:
                        return self.independent(f, i)
        return False

    def independent(self, f, i):
        defs = {j["d"]: j for b in f.blocks for j in b if "d" in j}
        todo, seen = [o[1] for o in ir.operands(i) if o[0] == "r"], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x not in defs:
                return False        # a parameter
            if defs[x]["o"] == "alloca":
                # what was put there
                for b in f.blocks:
                    for j in b:
                        if j["o"] in ("store", "call", "invoke") and any(o == ["r", x] for o in ir.operands(j)):
                            todo += [o[1] for o in ir.operands(j) if o[0] == "r"]
                continue
            todo += [o[1] for o in ir.operands(defs[x]) if o[0] == "r"]
        return True

    # ------------------------------------------------------------ addresses
    def addresses(self):
        """an address taken as a number must come back as an address or as a difference of two"""
        for f in self.defined:
            if not f.repo:
                continue
            defs = {j["d"]: j for b in f.blocks for j in b if "d" in j}
            uses, stores = {}, {}
            for b in f.blocks:
                for j in b:
                    if j["o"] == "store" and j["a"][1][0] == "r":
                        stores.setdefault(j["a"][1][1], []).append(j)
                    for o in ir.operands(j):
                        if o[0] == "r":
                            uses.setdefault(o[1], []).append(j)
            nums = {j["d"] for j in defs.values() if j["o"] == "ptrtoint"}
            for x in sorted(nums):
                self.r.obligations += 1
                bad = None
                todo, seen = [x], set()
                while todo and bad is None:
                    y = todo.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    for j in uses.get(y, ()):
                        o = j["o"]
                        if o == "sub" and self.other_is_address(defs, j, y, nums, stores):
                            continue
                        if o in ("add", "sub", "and", "or", "phi", "select", "freeze"):
                            todo.append(j["d"])
                        elif o == "store" and j["a"][0] == ["r", y] and j["a"][1][0] == "r" and defs.get(j["a"][1][1], {}).get("o") == "alloca" \
                                and all(k["o"] in ("load", "store") and (k["o"] != "store" or k["a"][0] != j["a"][1]) for k in uses.get(j["a"][1][1], ())):
                            # kept in a local variable
                            todo += [k["d"] for k in uses[j["a"][1][1]] if k["o"] == "load"]
                        elif o == "inttoptr":
                            continue
                        elif o == "icmp":
                            if self.other_is_address(defs, j, y, nums, stores) or any(v[0] == "null" or v[0] == "c" and int(v[2]) == 0 for v in j["a"]) and y == x:
                                continue
                            bad = j
                        else:
                            bad = j
                if bad is not None:
                    self.report("a memory address is used as a number", f.where(bad.get("l")), self.chain(f.name))
                else:
                    self.r.discharged += 1

    def other_is_address(self, defs, j, y, nums, stores):
        for v in j["a"]:
            if v[0] == "r" and v[1] != y and self.derived(defs, v[1], nums, stores):
                return True
        return len(j["a"]) == 2 and j["a"][0] == j["a"][1]

    def derived(self, defs, x, nums, stores):
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y in nums:
                return True
            if y in seen or y not in defs:
                continue
            seen.add(y)
            if defs[y]["o"] in ("add", "sub", "and", "or", "phi", "select"):
                todo += [o[1] for o in ir.operands(defs[y]) if o[0] == "r"]
            elif defs[y]["o"] == "load" and defs[y]["a"][0][0] == "r" and defs.get(defs[y]["a"][0][1], {}).get("o") == "alloca":
                todo += [k["a"][0][1] for k in stores.get(defs[y]["a"][0][1], ()) if k["a"][0][0] == "r"]
        return False


def decide(pid, kinds, tier):
    import properties, check_ops
    r = properties.Result("effect analysis over the call graph from every exported gas and run function, and abstract interpretation of the operations for uninitialised reads")
    r.rules = ["no function that gives time, randomness, environment, files, locale, process state, threads or addresses can be reached",
               "memory that survives a call is never written, except by initialisations that do not depend on the call",
               "an address used as a number comes back as an address or a difference of two",
               "encryption is asked for without random padding; reading a key never asks for a pass phrase",
               "no value read from uninitialised memory"]
    r.assumptions.append("library functions outside the listed sources (sa/check_det.py) give results determined by what they are given, in the C locale")
    prog = ir.load(UNITS)
    e = Effects(prog, r)
    if not e.roots:
        raise ir.AnalysisBroken("no exported operation found")
    r.extra["entry points"] = e.roots
    r.extra["functions that can run"] = len(e.from_)
    for tu in OPS:
        c = check_ops.Ops(ir.load(check_ops.BASE + [tu]))
        c.run_interface()
        r.add_engine(c.E, ("uninit",))
    # what is hashed, for a few lengths (C15 takes all)
    import check_scrypt
    prog = ir.load(check_ops.BASE + ["escrypt"])
    for n in (0, 3, check_scrypt.LIMIT):
        c = check_scrypt.Scrypt(prog, n)
        c.run()
        r.add_engine(c.E, ("uninit",))
    return r


if __name__ == "__main__":
    r = decide("C01", ("hidden", "uninit"), "quick")
    print(r.obligations, r.discharged, {k: v for k, v in r.extra.items()})
    for f in r.findings: print(f.text())
    print("UNDECIDED")
    for f in r.undecided: print(f.text())
