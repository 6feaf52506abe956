"""Front end: parses /repo's current sources with clang (tool/astx) and gives the resolved program to the analyses."""
import hashlib, json, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ASTX = os.path.join(BUILD, "astx")

SCO = "trajopt_sco/src/"
IFO = "trajopt_ifopt/src/"
SQP = "trajopt_optimizers/trajopt_sqp/src/"


class AnalysisBroken(Exception):
    """the analysis cannot be carried out (anchor vanished, source does not parse): neither pass nor violation"""


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "astx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = os.path.join(BUILD, "astx.stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ASTX) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        cmd = ["clang++-18" if _have("clang++-18") else "clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", ASTX + ".tmp",
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build astx: " + r.stderr[-2000:])
        os.replace(ASTX + ".tmp", ASTX)
        open(stamp, "w").write(h)


def _have(x):
    from shutil import which
    return which(x) is not None


INCS = ["trajopt_common/include", "trajopt_sco/include", "trajopt_ifopt/include",
        "trajopt_optimizers/trajopt_sqp/include", "trajopt/include", "trajopt_ext/vhacd/include"]


def flags(extra=()):
    fl = ["-std=c++17", "-xc++", "-DNDEBUG", "-w", "-ferror-limit=0"] + list(extra)
    fl += ["-I" + os.path.join(REPO, i) for i in INCS]
    fl += ["-isystem", os.path.join(VERIF, "stubs"), "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/jsoncpp",
           "-isystem", "/usr/include/bullet"]
    return fl


STUB = ["-I" + os.path.join(VERIF, "spec", "stub")]      # sources that use one declaration of a header needing tesseract
EXTRA = {
    IFO + "core/composite.cpp": STUB,
    IFO + "variable_sets/nodes_variables.cpp": STUB,
    SCO + "bpmpd_interface.cpp": ['-DBPMPD_CALLER="/x/bpmpd_caller"', "-DHAVE_BPMPD=ON"],
    SCO + "bpmpd_caller.cpp": ['-DBPMPD_WORKING_DIR="/x"'],
    SCO + "solver_interface.cpp": ["-DHAVE_BPMPD=ON", "-DHAVE_GUROBI=ON", "-DHAVE_OSQP=ON", "-DHAVE_QPOASES=ON"],
}


def strip_targs(q):
    """a::b<c, d>::e -> a::b::e ; keeps operator<, operator<<, operator->"""
    out, depth, i = [], 0, 0
    while i < len(q):
        if depth == 0 and q.startswith("operator", i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\])?", q[i:])
            if m and m.group(1):
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        ch = q[i]
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    return "".join(out)


class Program:
    def __init__(self):
        self.funcs = {}      # mangled -> func
        self.by_q = {}       # stripped qualified name -> [func]
        self.classes = {}    # type string -> class
        self.cls_q = {}      # stripped name -> class
        self.enums = {}
        self.globals = {}
        self.units = []
        self.badlines = {}
        self.overriders = {}  # mangled of base method -> set of mangled overriders (direct)

    def add(self, doc, unit):
        self.units.append(unit)
        self.badlines[unit] = doc.get("badlines", [])
        tu = len(self.units)
        for f in doc["funcs"]:
            f["unit"] = unit
            f["tu"] = tu
            f["q0"] = f["q"]
            f["q"] = strip_targs(f["q"])
            if "cls" in f:
                f["cls"] = strip_targs(f["cls"])
            if f["m"] in self.funcs:
                continue
            self.funcs[f["m"]] = f
            self.by_q.setdefault(f["q"], []).append(f)
        for c in doc["classes"]:
            c["q"] = strip_targs(c["q"])
            c["unit"] = unit
            c["tu"] = tu
            self.classes.setdefault(c["t"], c)
            self.cls_q.setdefault(c["q"], c)
            for m in c["methods"]:
                for b in m.get("ov", ()):
                    self.overriders.setdefault(b, set()).add(m["m"])
        for e in doc["enums"]:
            self.enums.setdefault(e["q"], e)
        for g in doc["globals"]:
            g["tu"] = tu
            self.globals.setdefault(g["q"], g)

    # ------------------------------------------------------------ lookups
    def fn(self, q, pred=None, opt=False):
        """the unique function with this qualified name (and satisfying pred)"""
        c = [f for f in self.by_q.get(q, ()) if pred is None or pred(f)]
        if len(c) == 1:
            return c[0]
        if opt and not c:
            return None
        raise AnalysisBroken("function %s: %d candidates" % (q, len(c)))

    def fns(self, q, pred=None):
        return [f for f in self.by_q.get(q, ()) if pred is None or pred(f)]

    def cls(self, q, opt=False):
        c = self.cls_q.get(q)
        if c is None and not opt:
            raise AnalysisBroken("class %s not found" % q)
        return c

    def field(self, cq, name):
        c = self.cls(cq)
        for f in c["fields"]:
            if f["n"] == name:
                return f
        for b in c["bases"]:
            bq = strip_targs(b)
            if bq in self.cls_q:
                r = self.field(bq, name)
                if r:
                    return r
        return None

    def field_class(self, name):
        """the class of the objects stored in the fields of this name, when all of them agree"""
        if not hasattr(self, "_fc"):
            self._fc = {}
            for c in self.cls_q.values():
                for f in c["fields"]:
                    t = strip_targs(f["t"].replace("const ", "").strip())
                    self._fc.setdefault(f["n"], set()).add(t if t in self.cls_q else None)
        ts = self._fc.get(name, ())
        return next(iter(ts)) if len(ts) == 1 else None

    def all_fields(self, cq):
        c = self.cls(cq)
        out = []
        for b in c["bases"]:
            bq = strip_targs(b)
            if bq in self.cls_q:
                out += self.all_fields(bq)
        return out + list(c["fields"])

    def is_subclass(self, cq, base):
        if cq == base:
            return True
        c = self.cls_q.get(cq)
        return bool(c) and any(self.is_subclass(strip_targs(b), base) for b in c["bases"])

    def subclasses(self, base):
        return [c for q, c in self.cls_q.items() if q != base and self.is_subclass(q, base)]

    def enum(self, q):
        e = self.enums.get(q)
        if e is None:
            raise AnalysisBroken("enum %s not found" % q)
        return e

    def resolve_virtual(self, m, dyn_cls):
        """final overrider of method m (mangled) when the dynamic class is dyn_cls; None when unknown"""
        seen = set()

        def overrides(x, target):
            if x == target:
                return True
            f = self._method(x)
            return bool(f) and any(overrides(b, target) for b in f.get("ov", ()))
        q = dyn_cls
        while q:
            c = self.cls_q.get(q)
            if c is None:
                return None
            for mm in c["methods"]:
                if overrides(mm["m"], m):
                    return mm["m"]
            nxt = None
            for b in c["bases"]:
                bq = strip_targs(b)
                if bq in self.cls_q and bq not in seen:
                    nxt = bq
                    break
            seen.add(q)
            q = nxt
        return None

    def _method(self, m):
        if not hasattr(self, "_mm"):
            self._mm = {}
            for c in list(self.classes.values()) + list(self.cls_q.values()):
                for mm in c["methods"]:
                    self._mm.setdefault(mm["m"], mm)
        return self._mm.get(m)


def _run_astx(rel, extra):
    if rel.endswith("spec/problem.cpp"):
        extra = list(extra) + STUB
    if rel.endswith("spec/qp.cpp"):
        extra = list(extra) + ["-I" + REPO]     # its class is defined in a source file
    src = rel if os.path.isabs(rel) else os.path.join(REPO, rel)
    if not os.path.exists(src):
        raise AnalysisBroken("source %s does not exist" % src)
    os.makedirs(os.path.join(BUILD, "ast"), exist_ok=True)
    out = os.path.join(BUILD, "ast", "%s.%d.json" % (hashlib.sha1((src + repr(extra)).encode()).hexdigest()[:16], os.getpid()))
    root = REPO.rstrip("/") + "/:" + os.path.join(VERIF, "spec") + "/"
    soft = src.startswith(os.path.join(VERIF, "spec") + "/")
    r = subprocess.run([ASTX, root, out, src] + flags(extra), capture_output=True, text=True, cwd="/")
    if not os.path.exists(out):
        raise AnalysisBroken("astx failed on %s: %s" % (rel, r.stderr[-1500:]))
    try:
        doc = json.load(open(out))
    finally:
        os.unlink(out)
    doc["badlines"] = []
    if doc["errors"] and soft:
        # a reference definition that no longer matches the declarations it refers to: only that one is unusable
        doc["badlines"] = [int(m.group(1)) for m in re.finditer(re.escape(src) + r":(\d+):\d+: (?:fatal )?error", r.stderr)]
        if not doc["badlines"]:
            raise AnalysisBroken("%s does not parse:\n%s" % (rel, r.stderr[-3000:]))
    elif doc["errors"]:
        raise AnalysisBroken("%s does not parse:\n%s" % (rel, r.stderr[-3000:]))
    return doc


def load(units):
    """units: list of paths relative to /repo (or absolute, for drivers in /verif).  Re-parses on every call."""
    build_tool()
    p = Program()
    with ThreadPoolExecutor(8) as ex:
        docs = list(ex.map(lambda u: _run_astx(u, EXTRA.get(u, [])), units))
    for u, d in zip(units, docs):
        p.add(d, u)
    return p


def rel(path):
    r = REPO.rstrip("/") + "/"
    return path[len(r):] if path.startswith(r) else path


if __name__ == "__main__":
    if "--build" in sys.argv:
        build_tool()
        print("astx ready")
