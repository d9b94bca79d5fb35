"""Loads the type-checked program of /repo's current working tree.

The front end (tool/hiopdump) parses the translation units of the real build
(same defines, same include paths) and writes every function, class, enum and
global defined below /repo/src.  Nothing of /repo is executed.
"""
import hashlib, json, os, pickle, subprocess, sys, tempfile, shutil, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HIOP_REPO", "/repo")
SRC = REPO + "/src"

TUS_CXX = """
Interface/hiopInterfacePrimalDecomp.cpp Interface/chiopInterface.cpp
Optimization/hiopNlpFormulation.cpp Optimization/hiopFactAcceptor.cpp Optimization/hiopIterate.cpp
Optimization/hiopResidual.cpp Optimization/hiopFilter.cpp Optimization/hiopAlgFilterIPM.cpp
Optimization/hiopKKTLinSys.cpp Optimization/hiopKKTLinSysMDS.cpp Optimization/hiopHessianLowRank.cpp
Optimization/hiopDualsUpdater.cpp Optimization/hiopNlpTransforms.cpp Optimization/hiopPDPerturbation.cpp
Optimization/hiopAlgPrimalDecomp.cpp Optimization/hiopFRProb.cpp
LinAlg/hiopVectorPar.cpp LinAlg/hiopVectorIntSeq.cpp LinAlg/hiopMatrixDenseRowMajor.cpp
LinAlg/hiopLinSolver.cpp LinAlg/LinAlgFactory.cpp LinAlg/hiopMatrixMDS.cpp LinAlg/hiopMatrixComplexDense.cpp
LinAlg/hiopMatrixSparseTripletStorage.cpp LinAlg/hiopMatrixSparseTriplet.cpp
LinAlg/hiopMatrixComplexSparseTriplet.cpp LinAlg/hiopMatrixSparseCSRSeq.cpp LinAlg/hiopLinearOperator.cpp
LinAlg/hiopKrylovSolver.cpp LinAlg/hiopVectorCompoundPD.cpp LinAlg/hiopVectorIntCompoundPD.cpp
LinAlg/hiopLinSolverUMFPACKZ.cpp
Utils/hiopLogger.cpp Utils/hiopOptions.cpp Utils/MathKernelsHost.cpp Utils/hiopKronReduction.cpp
""".split()
TUS_C = ["Interface/hiopFortranInterface.c"]

FC = """#ifndef FC_HEADER_INCLUDED
#define FC_HEADER_INCLUDED
#define FC_GLOBAL(name,NAME) name##_
#define FC_GLOBAL_(name,NAME) name##_
#define FC_MODULE(mod_name,name, mod_NAME,NAME) __##mod_name##_MOD_##name
#define FC_MODULE_(mod_name,name, mod_NAME,NAME) __##mod_name##_MOD_##name
#endif
"""

class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure)."""


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in files:
            if f.endswith((".hpp", ".cpp", ".h", ".c", ".in", ".hxx")):
                fs.append(os.path.join(root, f))
    for f in sorted(fs):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    for f in sorted(glob.glob(VERIF + "/tool/*.cpp")) + [os.path.abspath(__file__)]:
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def gen_config(d, deepchecks=True):
    src = open(SRC + "/Interface/hiop_defs.hpp.in").read()
    on = {"HIOP_USE_MPI", "HIOP_USE_EIGEN"}
    if deepchecks:
        on.add("HIOP_DEEPCHECKS")
    out = []
    for line in src.splitlines():
        if line.startswith("#cmakedefine"):
            name = line.split()[1]
            out.append("#define %s" % name if name in on else "/* #undef %s */" % name)
        else:
            for k, v in (("PROJECT_VERSION_MAJOR", "1"), ("PROJECT_VERSION_MINOR", "1"),
                         ("PROJECT_VERSION_PATCH", "0"), ("PROJECT_VERSION", "1.1.0"),
                         ("HIOP_RELEASE_DATE", "2026-01-01")):
                line = line.replace("@" + k + "@", v)
            out.append(line)
    open(d + "/hiop_defs.hpp", "w").write("\n".join(out) + "\n")
    open(d + "/FortranCInterface.hpp", "w").write(FC)


def run_dump(deepchecks=True, ndebug=False):
    """returns (records, stats)"""
    tool = VERIF + "/build/hiopdump"
    if not os.path.exists(tool):
        subprocess.check_call(["bash", VERIF + "/tool/build.sh"], stdout=subprocess.DEVNULL)
    tmp = tempfile.mkdtemp(prefix="hiopsa.")
    try:
        gen_config(tmp, deepchecks)
        inc = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
               "/usr/include/eigen3", "/usr/include/suitesparse", tmp]
        inc += [SRC + "/" + x for x in ("Interface", "ExecBackends", "Optimization", "LinAlg", "Utils", "_Internals")]
        flags = ["-I" + x for x in inc] + ["-w", "-O0", "-fparse-all-comments"]
        flags = [f for f in flags if f != "-fparse-all-comments"]
        if ndebug:
            flags.append("-DNDEBUG")
        groups = [[] for _ in range(8)]
        szs = [0] * 8
        for f in sorted(TUS_CXX, key=lambda f: -os.path.getsize(SRC + "/" + f) if os.path.exists(SRC + "/" + f) else 0):
            if not os.path.exists(SRC + "/" + f):
                raise AnalysisBroken("translation unit vanished: " + f)
            k = szs.index(min(szs))
            groups[k].append(SRC + "/" + f)
            szs[k] += os.path.getsize(SRC + "/" + f) + 60000
        procs = []
        for k, g in enumerate(groups):
            procs.append(subprocess.Popen([tool, SRC + "/", "%s/o%d" % (tmp, k)] + g + ["--"] + ["-std=gnu++14"] + flags,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        procs.append(subprocess.Popen([tool, SRC + "/", tmp + "/oc"] + [SRC + "/" + f for f in TUS_C] + ["--", "-std=gnu17"] + flags,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        bad = []
        for p in procs:
            _, e = p.communicate()
            if p.returncode != 0:
                bad.append(e.decode(errors="replace")[-1500:])
        if bad:
            raise AnalysisBroken("front end failed to parse the sources:\n" + "\n".join(bad))
        recs, seen = [], set()
        for f in sorted(glob.glob(tmp + "/o[0-9]")) + [tmp + "/oc"]:
            for line in open(f):
                r = json.loads(line)
                key = (r["k"], r.get("id") or r.get("q"), r["file"] if r["k"] not in ("Func",) else "", r["l"] if r["k"] in ("Global", "Enum") else 0)
                if key in seen:
                    continue
                seen.add(key)
                r["file"] = os.path.relpath(os.path.normpath(r["file"]), REPO)
                recs.append(r)
        return recs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Model:
    def __init__(self, recs):
        self.funcs = {}     # id -> record
        self.by_q = {}      # qualified name -> [records]
        self.classes = {}
        self.crecords = []
        self.enums = []
        self.globals = []
        for r in recs:
            k = r["k"]
            if k == "Func":
                self.funcs[r["id"]] = r
                self.by_q.setdefault(r["q"], []).append(r)
            elif k == "Class":
                self.classes[r["q"]] = r
            elif k == "CRecord":
                self.crecords.append(r)
            elif k == "Enum":
                self.enums.append(r)
            elif k == "Global":
                self.globals.append(r)
        # hierarchy
        self.subs = {}
        for q, c in self.classes.items():
            for b in c["bases"]:
                self.subs.setdefault(b, set()).add(q)
        # override map: base method id -> set of overriding ids (transitive)
        self.meth = {}
        over = {}
        for q, c in self.classes.items():
            for m in c["methods"]:
                self.meth[m["id"]] = (q, m)
                for o in m["over"]:
                    over.setdefault(o, set()).add(m["id"])
        self.over_direct = over
        self._ov = {}

    def overriders(self, mid):
        if mid in self._ov:
            return self._ov[mid]
        res, todo = set(), [mid]
        while todo:
            x = todo.pop()
            for y in self.over_direct.get(x, ()):
                if y not in res:
                    res.add(y)
                    todo.append(y)
        self._ov[mid] = res
        return res

    def all_subs(self, q):
        res, todo = set(), [q]
        while todo:
            x = todo.pop()
            for y in self.subs.get(x, ()):
                if y not in res:
                    res.add(y)
                    todo.append(y)
        return res

    def all_bases(self, q):
        res, todo = [], [q]
        while todo:
            x = todo.pop(0)
            c = self.classes.get(x)
            if not c:
                continue
            for b in c["bases"]:
                if b not in res:
                    res.append(b)
                    todo.append(b)
        return res

    def targets(self, call):
        """ids of the functions a call may reach (class-hierarchy analysis)"""
        f = call.get("f")
        if not f:
            return []
        res = [f]
        if call.get("v"):
            res += sorted(self.overriders(f))
        return res

    def fn(self, q, n=None):
        l = self.by_q.get(q, [])
        if not l:
            raise AnalysisBroken("anchor vanished: function %s" % q)
        if n is None and len(l) == 1:
            return l[0]
        if n is None:
            return l
        return [f for f in l if len(f["p"]) == n][0]


def load(deepchecks=True, ndebug=False):
    key = tree_hash()[:24] + ("d" if deepchecks else "n") + ("N" if ndebug else "A")
    cdir = VERIF + "/build/cache"
    path = cdir + "/" + key + ".pickle"
    sys.setrecursionlimit(100000)
    if os.path.exists(path) and not os.environ.get("HIOPSA_NOCACHE"):
        try:
            return Model(pickle.load(open(path, "rb")))
        except Exception:
            pass
    recs = run_dump(deepchecks, ndebug)
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted(glob.glob(cdir + "/*.pickle"), key=os.path.getmtime)
        for f in old[:-6]:
            os.unlink(f)
        fd, tp = tempfile.mkstemp(dir=cdir)
        with os.fdopen(fd, "wb") as fh:
            pickle.dump(recs, fh, protocol=4)
        os.rename(tp, path)
    except OSError:
        pass
    return Model(recs)


if __name__ == "__main__":
    t = time.time()
    m = load()
    print(len(m.funcs), "functions", len(m.classes), "classes", len(m.enums), "enums", len(m.globals), "globals", "%.1fs" % (time.time() - t))
