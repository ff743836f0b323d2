"""Compiles the current sources of the repository to LLVM IR (nothing is
executed or linked) and loads the IR with its resolved callees, address
arithmetic, exception edges and debug locations."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRDUMP = os.path.join(HERE, "build", "irdump")

CXX = ["clang++", "-std=gnu++11", "-fdelayed-template-parsing", "-fPIC", "-O0", "-g", "-Xclang", "-mno-constructor-aliases",
       "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w"]


def includes(tmp):
    return ["-I" + os.path.join(REPO, d) for d in
            ("include/eni", "include", "tools/eni_crypto", "tools/eni_scrypt", "tools/eni_cli")] + \
           ["-isystem", tmp]


class AnalysisBroken(Exception):
    pass


def plain_algorithms(tmp):
    """The library's search loop for random access iterators is unrolled four times, counted by a quotient. What it
    does is what its version for other iterators does, which is easier to follow: headers with that version."""
    import glob
    for f in sorted(glob.glob("/usr/include/c++/*/bits/stl_algobase.h")):
        s = open(f).read()
        m = re.search(r"typename iterator_traits<_RandomAccessIterator>::difference_type\s+__trip_count = .*?default:\s+return __last;\s+}", s, re.S)
        if m is None or m.group(0).count("{") != m.group(0).count("}"):
            continue
        lines = m.group(0).count("\n")
        s = s[:m.start()] + "while (__first != __last && !__pred(__first)) ++__first; return __first;" + "\n" * lines + s[m.end():]
        os.makedirs(os.path.join(tmp, "bits"), exist_ok=True)
        open(os.path.join(tmp, "bits", "stl_algobase.h"), "w").write(s)


_short = [
    ("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string"),
    ("std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>", "std::ostringstream"),
    ("std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>", "std::stringstream"),
    ("std::__cxx11::basic_istringstream<char, std::char_traits<char>, std::allocator<char>>", "std::istringstream"),
    ("std::basic_ostream<char, std::char_traits<char>>", "std::ostream"),
    ("std::vector<char, std::allocator<char>>", "std::vector<char>"),
    ("std::vector<unsigned char, std::allocator<unsigned char>>", "std::vector<unsigned char>"),
    ("<char, std::char_traits<char>, std::allocator<char>>", "<char>"),
]


def shorten(d):
    for a, b in _short:
        if a in d:
            d = d.replace(a, b)
    # the return type of function templates is part of the name: keep it, rules match on the rest
    return d


class Function:
    __slots__ = ("name", "dem", "internal", "ret", "vararg", "nounwind", "params", "file", "line",
                 "heads", "blocks", "tu", "intr", "sname", "_live", "short", "repo", "_order", "_mem")

    def __init__(self, d, tu):
        self.name = d["n"]; self.dem = shorten(d["dem"]); self.internal = d["internal"]; self.ret = d["ret"]
        self.vararg = d["vararg"]; self.nounwind = d["nounwind"]; self.params = d["params"]
        self.file = d.get("file", ""); self.line = d.get("line", 0)
        self.heads = set(d.get("heads", ())); self.blocks = d.get("blocks"); self.tu = tu
        self.intr = d.get("intr", False); self._live = None; self._order = None; self._mem = None
        self.sname = d.get("sname", "")
        self.repo = self.file.startswith(REPO + "/") or "/verif/" in self.file

    def order(self, blk):
        """(loop nesting depth, reverse postorder number) of a block"""
        if self._order is None:
            n = len(self.blocks)
            succ = [successors(b[-1]) for b in self.blocks]
            pred = [[] for _ in range(n)]
            for i, l in enumerate(succ):
                for t in l:
                    pred[t].append(i)
            post, seen, todo = [], {0}, [(0, iter(succ[0]))]
            while todo:
                b, it = todo[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t); todo.append((t, iter(succ[t]))); break
                else:
                    post.append(b); todo.pop()
            rpo = {b: i for i, b in enumerate(reversed(post))}
            depth = [0] * n
            for h in self.heads:
                # natural loop: blocks that reach a latch of h without passing h
                reach = {h} if False else set()
                latches = [p for p in pred[h] if p in rpo and self.dominates(h, p, succ)]
                body, todo = {h}, [p for p in latches if p != h]
                while todo:
                    b = todo.pop()
                    if b in body:
                        continue
                    body.add(b)
                    todo.extend(pred[b])
                for b in body:
                    depth[b] += 1
            self._order = [(depth[b], rpo.get(b, n)) for b in range(n)]
        return self._order[blk]

    def dominates(self, h, p, succ):
        if h == 0 or h == p:
            return True
        seen, todo = {0}, [0]
        while todo:
            b = todo.pop()
            for t in succ[b]:
                if t != h and t not in seen:
                    seen.add(t); todo.append(t)
        return p not in seen

    @property
    def defined(self):
        return self.blocks is not None

    def where(self, line=None):
        f = self.file
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%s (%s)" % (f, line or self.line, self.dem)

    def mem_dead(self, blk, idx):
        """registers of local variables whose contents are overwritten before any read from here on"""
        if self._mem is None:
            self._mem = self._mem_live()
        cand, livein, succ, cache = self._mem
        k = (blk, idx)
        if k in cache:
            return cache[k]
        cur = set()
        for t in succ[blk]:
            cur |= livein[t]
        for i in reversed(self.blocks[blk][idx:]):
            self._mem_step(i, cand, cur)
        cache[k] = [r for r in cand if r not in cur]
        return cache[k]

    def _mem_step(self, i, cand, cur):
        o = i["o"]
        if o == "store":
            a = i["a"]
            if a[1][0] == "r" and a[1][1] in cand:
                if i["sz"] == cand[a[1][1]]:
                    cur.discard(a[1][1])
                else:
                    cur.add(a[1][1])
            return
        for x in operands(i):
            if x[0] == "r" and x[1] in cand:
                cur.add(x[1])

    def _mem_live(self):
        cand = {}
        for b in self.blocks:
            for i in b:
                if i["o"] == "alloca" and "count" not in i:
                    cand[i["d"]] = i["size"]
        for b in self.blocks:
            for i in b:
                o = i["o"]
                if o in ("load", "alloca"):
                    continue
                if o == "store":
                    if i["a"][0][0] == "r":
                        cand.pop(i["a"][0][1], None)
                    continue
                if o in ("call", "invoke"):
                    continue
                for x in operands(i):
                    if x[0] == "r":
                        cand.pop(x[1], None)
        succ = [successors(b[-1]) for b in self.blocks]
        n = len(self.blocks)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                cur = set()
                for t in succ[b]:
                    cur |= live[t]
                for i in reversed(self.blocks[b]):
                    self._mem_step(i, cand, cur)
                if cur != live[b]:
                    live[b] = cur; changed = True
        return cand, live, succ, {}

    def live_in(self):
        """registers live at the entry of every block (phis count as uses on the edges)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, dfn, succ, phiuse = [], [], [], [dict() for _ in range(n)]
        for b, ins in enumerate(self.blocks):
            u, d = set(), set()
            for i in ins:
                if i["o"] == "phi":
                    for (pb, o) in i["in"]:
                        if o[0] == "r":
                            phiuse[pb].setdefault(b, set()).add(o[1])
                    d.add(i["d"])
                    continue
                for o in operands(i):
                    if o[0] == "r" and o[1] not in d:
                        u.add(o[1])
                if "d" in i:
                    d.add(i["d"])
            use.append(u); dfn.append(d); succ.append(successors(ins[-1]))
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in succ[b]:
                    out |= live[s]
                    out |= phiuse[b].get(s, set())
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new; changed = True
        # live-out after instruction index, computed on demand
        self._live = (live, succ, phiuse)
        return self._live

    def live_after(self, b, idx):
        live, succ, phiuse = self.live_in()
        out = set()
        for s in succ[b]:
            out |= live[s] | phiuse[b].get(s, set())
            # phi results are defined at entry of s
        ins = self.blocks[b]
        cur = set(out)
        for j in range(len(ins) - 1, idx, -1):
            i = ins[j]
            if "d" in i:
                cur.discard(i["d"])
            if i["o"] != "phi":
                for o in operands(i):
                    if o[0] == "r":
                        cur.add(o[1])
        return cur


def operands(i):
    o = i["o"]
    r = []
    if o == "getelementptr":
        r.append(i["base"])
        for v, _ in i.get("vars", ()):
            r.append(v)
    elif o in ("call", "invoke"):
        r.append(i["f"]); r.extend(i["a"])
    elif o == "phi":
        r.extend(x for _, x in i["in"])
    else:
        r.extend(i.get("a", ()))
        if "count" in i:
            r.extend(i["count"])
    return r


def successors(t):
    o = t["o"]
    if o == "br":
        return t["s"]
    if o == "switch":
        return [t["def"]] + [b for _, b in t["cases"]]
    if o == "invoke":
        return [t["nb"], t["ub"]]
    return []


class Program:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.tus = []
        self.by_dem = {}

    def add_module(self, m, tu):
        self.tus.append(tu)
        ren_f, ren_g = {}, {}
        for f in m["functions"]:
            if f["internal"]:
                ren_f[f["n"]] = f["n"] + "@" + tu
        for g in m["globals"]:
            if g["internal"]:
                ren_g[g["n"]] = g["n"] + "@" + tu

        def fix(o):
            if isinstance(o, list):
                if len(o) >= 2 and o[0] == "f" and isinstance(o[1], str):
                    o[1] = ren_f.get(o[1], o[1])
                elif len(o) == 3 and o[0] == "g" and isinstance(o[1], str):
                    o[1] = ren_g.get(o[1], o[1])
                else:
                    for x in o:
                        fix(x)
            elif isinstance(o, dict):
                for x in o.values():
                    fix(x)
        if ren_f or ren_g:
            for f in m["functions"]:
                fix(f.get("blocks"))
            for g in m["globals"]:
                fix(g.get("cells"))
        for f in m["functions"]:
            f["n"] = ren_f.get(f["n"], f["n"])
            old = self.functions.get(f["n"])
            if old is None or (not old.defined and "blocks" in f):
                self.functions[f["n"]] = Function(f, tu)
        by = {f["n"]: f for f in m["functions"]}
        for n, dem, target, internal in m.get("aliases", ()):
            f = by.get(ren_f.get(target, target))
            if f is not None:
                old = self.functions.get(n)
                if old is None or not old.defined:
                    self.functions[n] = Function(dict(f, n=n, dem=dem), tu)
        for g in m["globals"]:
            g["n"] = ren_g.get(g["n"], g["n"])
            g["tu"] = tu
            old = self.globals.get(g["n"])
            if old is None or (old["decl"] and not g["decl"]):
                self.globals[g["n"]] = g

    def index(self):
        self.by_dem = {}
        for f in self.functions.values():
            self.by_dem.setdefault(f.dem, []).append(f)

    def find(self, rx, defined=True):
        r = re.compile(rx)
        return [f for f in self.functions.values() if (f.defined or not defined) and r.search(f.dem)]

    def one(self, rx, what=None):
        l = self.find(rx)
        if not l:
            raise AnalysisBroken("anchor not found: %s" % (what or rx))
        return l[0]

    # --- C++ type information -------------------------------------------
    def typeinfo_bases(self, ti):
        """[(base typeinfo name, offset, public?)] of a typeinfo global"""
        g = self.globals.get(ti)
        if not g or not g.get("cells"):
            return []
        cells = {c[0]: c for c in g["cells"]}
        vt = cells.get(0, [0, 8, ["?"]])[2]
        kind = vt[1] if len(vt) > 1 else ""
        if "__si_class_type_info" in kind:
            b = cells.get(16)
            return [(b[2][1], 0, True)] if b else []
        if "__vmi_class_type_info" in kind:
            out = []
            n = int(cells[20][2][2]) if 20 in cells else 0
            for i in range(n):
                off = 24 + 16 * i
                fl = int(cells[off + 8][2][2]) if off + 8 in cells else 0
                out.append((cells[off][2][1], fl >> 8, bool(fl & 2)))
            return out
        return []

    def is_base(self, ti, base):
        """can a handler for `base` catch an object of type `ti`?"""
        if ti == base:
            return True
        found = []

        def walk(t, pub):
            for b, off, p in self.typeinfo_bases(t):
                if b == base and pub and p:
                    found.append(off)
                elif b == base:
                    found.append(None)
                walk(b, pub and p)
        walk(ti, True)
        pubs = [x for x in found if x is not None]
        return len(pubs) == 1
    KNOWN_STD_BASES = {
        "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
        "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
        "_ZTISt8bad_cast": ["_ZTISt9exception"],
    }

    def catches(self, thrown, handler):
        if handler is None:
            return True
        if self.is_base(thrown, handler):
            return True
        # library hierarchy (typeinfo is external)
        todo, seen = [thrown], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            for b in self.KNOWN_STD_BASES.get(t, []):
                if b == handler:
                    return True
                todo.append(b)
            for b, off, pub in self.typeinfo_bases(t):
                if pub:
                    todo.append(b)
                    if b == handler:
                        return True
        return False


TUS = {
    "eni": "lib/eni.cpp", "types": "lib/eni_types.cpp", "exc": "lib/diagnostic/Exception.cpp",
    "array": "lib/json/Array.cpp", "notation": "lib/json/Notation.cpp", "object": "lib/json/Object.cpp",
    "value": "lib/json/Value.cpp", "gas": "tools/eni_cli/eni_gas.cpp", "run": "tools/eni_cli/eni_run.cpp",
    "opt": "tools/eni_cli/optParser.cpp", "crypto": "tools/eni_crypto/eni_crypto.cpp",
    "escrypt": "tools/eni_scrypt/eni_scrypt.cpp", "scrypt": "tools/eni_scrypt/scrypt.cpp",
    "reverse": "examples/eni/reverse/eni_reverse.cpp", "json": "examples/eni/json/eni_json.cpp",
}


def tu_path(tu):
    if tu in TUS:
        return os.path.join(REPO, TUS[tu])
    return os.path.join(HERE, "inst", tu + ".cpp")


def compile_one(args):
    tu, tmp = args
    src = tu_path(tu)
    ll = os.path.join(tmp, tu + ".ll")
    cmd = CXX + includes(tmp) + ["-S", "-emit-llvm", src, "-o", ll]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return tu, None, "%s does not compile:\n%s" % (src, r.stdout[-3000:])
    r = subprocess.run([IRDUMP, ll], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(ll)
    if r.returncode:
        return tu, None, "irdump failed on %s: %s" % (src, r.stderr[-2000:])
    return tu, r.stdout, None


def load(tus):
    if not os.path.exists(IRDUMP):
        raise AnalysisBroken("tool not built: run setup (%s missing)" % IRDUMP)
    tmp = tempfile.mkdtemp(prefix="sa_")
    try:
        os.makedirs(os.path.join(tmp, "jsmn"))
        plain_algorithms(tmp)
        os.symlink("/usr/include/jsmn.h", os.path.join(tmp, "jsmn", "jsmn.h"))
        prog = Program()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(compile_one, [(t, tmp) for t in list(tus) + ["libc"]]))
        for tu, out, err in res:
            if err:
                raise AnalysisBroken(err)
            prog.add_module(json.loads(out), tu)
        prog.index()
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def all_sources_present():
    """every C++ source of the repository outside tests is one of the analysed units"""
    found = []
    for d in ("lib", "tools", "examples"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("test", "tests")]
            for f in files:
                if f.endswith((".cpp", ".c", ".cc", ".cxx")):
                    found.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(found), sorted(set(found) - set(TUS.values()))
