"""Common machinery: run TLC on a specification and collect the behaviours it
prints, run them against the implementation, and report."""
import concurrent.futures as cf
import json, math, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
REPO = "/repo"
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def parse_emits(text):
    out = []
    for line in text.split("\n"):
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.notes, self.tlc_runs = [], [], [], []
        self.known_seen = []
        self.known = load_known(pid)
        self.quick = tier == "quick"
        self.extra = {}
        self.assumptions = []
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=pid + "-", dir=BUILD)
        self.pool = cf.ThreadPoolExecutor(8)
        self.lock = threading.Lock()
        self.harness = self.pool.submit(self.build_harness)   # while TLC runs

    # ---------------------------------------------------------------- TLC
    def go(self, *args, **kw):
        """Start a TLC run; its records are the result() of what is returned"""
        return self.pool.submit(self.tlc, *args, **kw)

    def tlc(self, module, cfg=None, consts=None, sim=None, workers=None, timeout=800, tag="", files=None, parallel=1):
        """Run TLC. sim = (num, depth) for simulation. consts override the
        constants of the cfg. files: name -> text put beside the module.
        parallel > 1 runs that many simulations with different seeds.
        Returns the records printed by the specification."""
        if sim and parallel > 1:
            with cf.ThreadPoolExecutor(parallel) as ex:
                futs = [ex.submit(self._tlc, module, cfg, consts, sim, 1, timeout, files, self.seed * 1000 + k)
                        for k in range(parallel)]
                res = [f.result() for f in futs]
            return [r for x in res for r in x]
        return self._tlc(module, cfg, consts, sim, workers, timeout, files, self.seed)

    def _tlc(self, module, cfg, consts, sim, workers, timeout, files, seed):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".json", ".ndjson")):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        text = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + v, text)
            if n != 1:
                raise ToolError("constant %s not in cfg of %s" % (k, module))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(text)
        gc = ["-XX:+UseSerialGC", "-Xmx1200m"] if sim else ["-XX:+UseParallelGC", "-Xmx6g"]
        cmd = ["java"] + gc + ["-Xss64m", "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-config", "run.cfg", "-workers", str(workers or (1 if sim else 8))]
        if sim:
            cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed)]
        cmd += [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            if p.returncode == -9:  # ended from outside when memory ran low: once more
                time.sleep(10)
                shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
                p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode != 0:
            lines = [l for l in out.split("\n") if not l.startswith('"@@')]
            err = [i for i, l in enumerate(lines) if "rror" in l or "violated" in l]
            tail = "\n".join(lines[err[0]:err[0] + 12] + ["..."] + lines[-40:]) if err else "\n".join(lines)[-4000:]
            raise ToolError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, tail))
        st = tr = 0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            tr, st = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            st = tr = int(m.group(1))
        recs = parse_emits(out)
        with self.lock:
            self.states += st
            self.transitions += tr
            self.tlc_runs.append(dict(module=module, mode="simulate" if sim else "exhaustive", seed=seed if sim else None,
                                      states=st, transitions=tr, emitted=len(recs), constants=consts or {}))
        shutil.rmtree(d, ignore_errors=True)
        return recs

    # ------------------------------------------------------------ building
    def cargo(self, args, cwd, env=None):
        e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
        e.update(env or {})
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout.decode("utf-8", "replace")[-6000:]))

    def build_harness(self):
        h = os.path.join(HERE, "harness")
        self.cargo(["build", "--offline", "--locked", "--quiet", "--target-dir", os.path.join(BUILD, "target")], h)
        return os.path.join(BUILD, "target", "debug", "harness")

    def build_bins(self):
        self.cargo(["build", "--offline", "--locked", "--quiet", "--bins", "--target-dir", os.path.join(BUILD, "repo-target")], REPO)
        d = os.path.join(BUILD, "repo-target", "debug")
        return os.path.join(d, "nxc"), os.path.join(d, "neapolitan")

    # ------------------------------------------------- running the harness
    def run(self, cases, case_timeout=20, parallel=8):
        """Run every case in the harness; one result per case. A case on which
        the process dies or hangs has the result {"crash": ...}."""
        exe = self.harness.result()
        n = len(cases)
        if n == 0:
            raise ToolError("no cases")
        k = max(1, min(parallel, (n + 49) // 50))
        chunks = [list(range(i, n, k)) for i in range(k)]
        results = [None] * n
        with cf.ThreadPoolExecutor(k) as ex:
            list(ex.map(lambda c: self._worker(exe, cases, c, results, case_timeout), chunks))
        return results

    def _worker(self, exe, cases, idxs, results, case_timeout):
        pos = 0
        crashes = 0
        while pos < len(idxs):
            fd, path = tempfile.mkstemp(dir=self.tmp)
            with os.fdopen(fd, "w") as f:
                for i in idxs[pos:]:
                    f.write(json.dumps(cases[i]) + "\n")
            with open(path) as fin:
                p = subprocess.Popen([exe, str(case_timeout)], stdin=fin, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, cwd=self.tmp)
                out, errb = p.communicate()
            os.unlink(path)
            got = 0
            for line in out.split(b"\n"):
                if not line.startswith(b"R "):
                    continue
                try:
                    r = json.loads(line[2:])
                except ValueError:
                    break
                results[idxs[pos + got]] = r
                got += 1
            pos += got
            if pos < len(idxs):
                if p.returncode == 3:
                    raise ToolError("harness rejected a case: %s\n%s" % (json.dumps(cases[idxs[pos]])[:2000], errb.decode("utf-8", "replace")[-2000:]))
                why = "no answer within %d s" % case_timeout if p.returncode == 99 else "process ended with status %s" % p.returncode
                results[idxs[pos]] = {"crash": why, "stderr": errb.decode("utf-8", "replace")[-800:]}
                pos += 1
                crashes += 1
                if crashes >= 5:
                    for i in idxs[pos:]:
                        results[i] = {"skipped": True}
                    return

    # ------------------------------------------------------------ reporting
    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    def ok(self, n=1):
        self.validated += n

    def violation(self, what, case=None, expected=None, got=None, key=None):
        """key identifies the failure for the list of known findings"""
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_seen:
                    self.known_seen.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.violations.append(dict(what=what, case=case, expected=expected, got=got))

    def finish(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        rc = 0
        if self.violations:
            rdir = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               count=len(self.violations), violations=self.violations[:20]), f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  %s" % v["what"][:600])
                if v["case"] is not None:
                    print("    case: %s" % json.dumps(v["case"], default=str)[:800])
                print("    expected: %s   got: %s" % (json.dumps(v["expected"], default=str)[:500], json.dumps(v["got"], default=str)[:500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        elif self.validated == 0:
            print("ERROR: nothing was validated")
            rc = 2
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ["none"], tlc_runs=self.tlc_runs)
        cov.update(self.extra)
        if self.known_seen:
            cov["known_findings_reproduced"] = self.known_seen
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if rc == 0:
            print("%s: held on %d traces/cases (%d states, %.1f s)" % (self.pid, self.validated, self.states, time.time() - self.t0))
        return rc


def load_known(pid):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out


def num(x):
    """numbers in harness results: NaN and infinities are strings"""
    if isinstance(x, str):
        return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[x]
    return float(x)


def close(a, b, rel=1e-9, abs_=1e-9):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def bad(res):
    """text for a result that is a crash, hang or panic, else None"""
    if res is None:
        return "no result"
    if "crash" in res:
        return "the process crashed or hung: %s" % res["crash"]
    if "panic" in res:
        return "panic: %s" % res["panic"]
    return None


def run_js(ctx, cases, parallel=4):
    """Run cases against the user interface in Node; one result per case."""
    if not cases:
        raise ToolError("no cases")
    n = min(parallel, (len(cases) + 19) // 20)
    results = [None] * len(cases)

    def one(k):
        idx = list(range(k, len(cases), n))
        d = tempfile.mkdtemp(dir=ctx.tmp)
        with open(os.path.join(d, "cases"), "w") as f:
            for i in idx:
                f.write(json.dumps(cases[i]) + "\n")
        with open(os.path.join(d, "cases")) as f:
            p = subprocess.run(["node", os.path.join(HERE, "harness_js", "harness.js"), REPO, d], stdin=f, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=600)
        got = [json.loads(l[2:]) for l in p.stdout.decode("utf-8").split("\n") if l.startswith("R ")]
        if p.returncode != 0 or len(got) != len(idx):
            raise ToolError("the interface does not run: %s" % p.stderr.decode("utf-8", "replace")[-3000:])
        for i, r in zip(idx, got):
            results[i] = r
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(n)))
    return results


# ------------------------------------------------------------ C++ drivers
def build_cpp(ctx, name, crate):
    """The driver for the C++ classes of a crate's header: (program, None), or
    (None, what the compilers say about the header)."""
    src = os.path.join(HERE, "harness_cpp", name + ".cpp")
    flags = ["-I" + os.path.join(REPO, crate), "-I" + os.path.join(HERE, "harness_cpp")]
    ctx.cargo(["build", "--offline", "--locked", "--quiet", "--lib", "-p", crate, "--target-dir", os.path.join(BUILD, "repo-target")], REPO)
    lib = os.path.join(BUILD, "repo-target", "debug")

    def cc(args, text=None):
        p = subprocess.run(args, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return None if p.returncode == 0 else p.stdout[-3000:]
    if cc(["g++", "-x", "c++", "-o", os.path.join(ctx.tmp, "nothing"), "-"], "#include <sstream>\nint main() { return 0; }\n"):
        raise ToolError("g++ does not work")
    for lang, std, comp in [("c", "c11", "gcc")] + [("c++", "c++%d" % v, "g++") for v in (11, 14, 17, 20)]:
        err = cc([comp, "-x", lang, "-std=" + std, "-fsyntax-only"] + flags + ["-"], '#include "%s.h"\n#include "%s.h"\nint main(void) { return 0; }\n' % (crate, crate))
        if err:
            return None, "as %s: %s" % (std, err)
    wraps = sorted(set(re.findall(r"__wrap_(\w+)", open(src).read())))
    exe = os.path.join(ctx.tmp, name)
    err = cc(["g++", "-std=c++17", "-g", "-O1", "-w"] + flags + [src, "-o", exe, "-L" + lib, "-l" + crate, "-Wl,-rpath," + lib, "-Wl," + ",".join("--wrap=" + w for w in wraps)])
    if err:
        return None, err
    return exe, None


def run_lines(ctx, exe, cases, parallel=8, timeout=120):
    """Cases are lists of lines. The results: dict(steps, left), or dict(dead or crash) for a case
    that a driver did not survive."""
    results = [None] * len(cases)

    def one(k):
        idx = list(range(k, len(cases), parallel))
        pos = crashes = 0
        while pos < len(idx):
            if crashes >= 5:
                for i in idx[pos:]:
                    results[i] = dict(skipped=True)
                return
            text = "".join("".join("\t".join(l) + "\n" for l in cases[i]) + "end\n" for i in idx[pos:])
            try:
                p = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, cwd=ctx.tmp)
                out, status = p.stdout, "ended with status %s" % p.returncode
            except subprocess.TimeoutExpired as e:
                out, status = e.stdout or b"", "no answer within %d s" % timeout
            steps, dead = [], None
            for line in out.decode("utf-8", "replace").split("\n"):
                if line.startswith("S "):
                    try:
                        steps.append(json.loads(line[2:]))
                    except ValueError:
                        break
                elif line.startswith("D "):
                    dead = json.loads(line[2:])
                elif line.startswith("E "):
                    results[idx[pos]] = dict(steps=steps, left=int(line[2:]))
                    steps = []
                    pos += 1
            if pos < len(idx):
                results[idx[pos]] = dict(steps=steps, dead=dead) if dead else dict(steps=steps, crash=status)
                pos += 1
                crashes += 1
    with cf.ThreadPoolExecutor(parallel) as ex:
        list(ex.map(one, range(parallel)))
    return results
