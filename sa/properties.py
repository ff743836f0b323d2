"""Which analysis decides which property."""
import importlib, time

ANALYSES = {
    "C01": ("check_det", ("hidden", "uninit")),
    "C03": ("check_parser", ("memory", "uninit")),
    "C04": ("check_parser", ("accept", "terminate")),
    "C05": ("check_parser", ("decode",)),
    "C02": ("check_ops", ("type", "refused", "exception")),
    "C06": ("check_print", ("print", "memory", "uninit")),
    "C07": ("check_values", ("values", "memory", "uninit")),
    "C08": ("check_ops", ("once", "order", "refusal", "results", "exception", "memory", "uninit")),
    "C09": ("check_ops", ("interface", "memory")),
    "C10": ("check_cli", ("cli", "memory", "uninit")),
    "C11": ("check_vector", ("elements", "memory", "uninit")),
    "C12": ("check_hash", ("map", "memory", "uninit")),
    "C13": ("check_hex", ("hex", "memory", "uninit")),
    "C14": ("check_ops", ("cipher", "memory", "uninit")),
    "C15": ("check_scrypt", ("scrypt", "memory", "uninit")),
    "C16": ("check_types", ("width", "convert", "memory", "uninit")),
    "C17": ("check_errors", ("message", "class", "escape", "memory", "uninit")),
    "C18": ("check_char", ("include", "memory", "uninit")),
    "C19": ("check_iter", ("iterator", "memory", "uninit", "map")),
    "C23": ("check_hasher", ("hidden", "endless", "memory", "uninit")),
}

TRUST = ["clang 18 lowers the sources (C++11, -O0) to LLVM IR faithfully; the shipped build is made by gcc from the same sources",
         "the models of libstdc++, libc and the cipher library in sa/models.py and the check state their documented behaviour",
         "the transfer functions of the analysis (sa/engine.py) over-approximate LLVM instructions"]


class Result:
    """what an analysis found, turned into what run.py prints and writes"""

    def __init__(self, headline="", level="proof"):
        self.headline = headline
        self.level = level
        self.findings = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.functions = set()
        self.stats = {}
        self.rules = []
        self.assumptions = list(TRUST)
        self.extra = {}
        self.samples = []
        self.checker = ""

    def coverage(self):
        c = {"obligations": self.obligations, "discharged": self.discharged,
             "checker_cmd": self.checker, "trusted_base": self.assumptions,
             "explanation": self.headline, "rule": "; ".join(self.rules),
             "functions_analysed": sorted(self.functions), "analysis": self.stats,
             "undecided": [f.text() for f in self.undecided[:20]], "samples": self.samples[:40]}
        c.update(self.extra)
        return c

    def add_engine(self, E, kinds=None, keep=None):
        """takes over the findings and obligations of an abstract interpretation run"""
        for f in E.findings.values():
            if (kinds is None or f.kind in kinds) and (keep is None or keep(f)):
                self.findings.append(f)
        for f in E.undecided.values():
            if kinds is None or f.kind in kinds or f.kind == "engine":
                self.undecided.append(f)
        obs = [k for k in E.checked if kinds is None or k[0] in kinds]
        bad = {(f.kind, f.where) for f in list(E.findings.values()) + list(E.undecided.values())}
        self.obligations += len(obs)
        self.discharged += sum(1 for k in obs if k not in bad)
        self.samples += ["%s at %s (checked in %d abstract states)" % (k[0], k[1], E.checked[k]) for k in sorted(obs)[:20]]
        self.functions |= {getattr(f, "dem", f) for f in E.functions_seen}
        for k, v in E.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        if E.unmodelled:
            self.extra.setdefault("calls_treated_as_unknown", []).extend(sorted(map(str, E.unmodelled)))


    def merge(self, q):
        """adds what another run (in another process) found"""
        self.findings += q.findings
        self.undecided += q.undecided
        self.obligations += q.obligations
        self.discharged += q.discharged
        self.samples += q.samples
        self.functions |= q.functions
        for k, v in q.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in q.extra.items():
            if isinstance(v, list):
                self.extra[k] = sorted(set(self.extra.get(k, [])) | set(v))
            else:
                self.extra[k] = v


def decide(pid, tier):
    mod, kinds = ANALYSES[pid]
    m = importlib.import_module(mod)
    r = m.decide(pid, kinds, tier)
    r.checker = "python3 /verif/run.py %s" % pid
    return r
