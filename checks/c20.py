"""C20: the command-line programs, run in scratch directories."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, tempfile
import core

NX = dict(
    lin=[("x + y = 3\nx - y = 1\n", dict(x=2, y=1)), ("alpha = 4\nbeta + alpha = 10", dict(alpha=4, beta=6)), ("2*x + y + z = 7\nx - y = 0 - 1\nz = x\n\n", dict(x=1.5, y=2.5, z=1.5))],
    cube=[("x^3 = 1000\n", dict(x=10)), ("guess 30 for q\nkeep q on [0, 100]\nq^2 + q = 12", dict(q=3))],
    root=[("x^2 = 2\nguess 1 for x\nkeep x on [0, 10]", dict(x=2 ** 0.5)), ("x*x = 3\nkeep x on [0, 9]", dict(x=3 ** 0.5))],
    noroot=[("x^2 = 0 - 1\n", None), ("x^2 + 1 = 0\ny = 3", None)],
    syntax=[("x + = 3\n", None), ("x + (2 = 3", None), ("x = 1\ny = * 2\n", None), ("x = 2\ny = 5 * [m->s]\n", None), ("x = 2 * [parsnip->cm]", None)],
    partial=[("x + y = 3\n", {}), ("q = 1\ny + z = 2\n", dict(q=1))],
    binary=[(b"x = \xff\xfe\x00\n", None)],
    empty=[("", {}), ("\n\n", {})],
)
NX["unit"] = [("// a comment = [x->y] \nconst L = 2\nx = 3 * L\nif x > 3:\n    y = 1\nelse:\n    y = 2\nend\n", dict(x=6, y=1)),
              ("const len = 4\n// words -> [and] signs = here\nlen * x = 8\n", dict(x=2))]


def model(study, n, conf, els, **kw):
    m = dict(model_type=study, nodes=n, configuration={str(i): dict(potential=[v], is_locked=True, metadata=None) for i, v in conf}, elements=[dict(element_type=t, input=i, output=o, gain=g) for t, i, o, g in els])
    m.update(kw)
    return json.dumps(m, indent=1)


NE = dict(
    circuit=[(model("dc_circuit", 3, [(0, 0.0)], [("voltage_source", 0, 1, [6.0]), ("resistor", 1, 2, [1.0]), ("resistor", 2, 0, [2.0])]), [0, 6, 4]),
             (model("dc_circuit", 2, [(1, 5.0)], [("current_source", 1, 0, [2.0]), ("resistor", 0, 1, [3.0])]), [11, 5])],
    heat=[(model("heat_transfer", 3, [(0, 100.0), (2, 0.0)], [("conductor", 0, 1, [0.5, 2.0]), ("convection_interface", 1, 2, [1.0])]), [100, 80, 0])],
    nosolution=[(model("dc_circuit", 3, [(0, 0.0)], [("current_source", 0, 1, [2.0]), ("resistor", 1, 2, [3.0])]), None)],
    badjson=[("{\"model_type\": \"dc_circuit\"", None), ("x = 3", None), (model("dc_circuit", 0, [], []) + "}", None), (model("dc_circuit", "2", [], []), None)],
    badtype=[(model("ssdc_circuit", 1, [(0, 0.0)], []), None), (model("dc_circuit", 2, [(0, 0.0)], [("conductor", 0, 1, [1.0])]), None)],
    badnode=[(model("dc_circuit", 2, [(0, 0.0)], [("resistor", 0, 2, [1.0])]), None), (model("dc_circuit", 2, [(5, 0.0)], [("resistor", 0, 1, [1.0])]), None)],
    binary=[(b"\xff\xfe{}", None)],
    nothing=[("", None), ("{}", None), ("[]", None)],
)


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in dirs:
            p = os.path.join(base, x)
            if not os.listdir(p):
                out[os.path.relpath(p, d)] = None
    return out


def nx_solution(text, want, margin, src):
    """None if the text gives the solution"""
    text = text[text.index("Solution:"):] if "Solution:" in text else text
    if src == "partial" and re.search(r"(?m)^[xyz] = ", text):
        return "a value that is not determined"
    for name, v in want.items():
        m = re.search(r"(?m)^%s = (\S+)\s*$" % re.escape(name), text)
        if not m:
            return "no value of %s" % name
        try:
            x = float(m.group(1))
        except ValueError:
            return "value of %s" % name
        if not abs(x - v) < 1e-3:
            return "value of %s" % name
        # the margin bounds what is left of the equation
        if src == "root" and abs(x * x - v * v) > max(margin * 1.01, 1e-14):
            return "precision of %s: %g is left" % (name, abs(x * x - v * v))
    return None


def ne_solution(text, want):
    try:
        d = json.loads(text)
        got = [core.num(d["nodes"][str(k)][0]) for k in range(len(want))]
    except (ValueError, KeyError, TypeError, IndexError):
        return "form of the solution"
    if len(d["nodes"]) != len(want) or not all(core.close(g, w, 1e-3, 1e-3) for g, w in zip(got, want)):
        return "node potentials"
    return None


def play(job):
    bins, top, rec, seed = job
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=top)
    os.mkdir(os.path.join(d, "sub"))
    have = {"sub": None}          # what the specification says is in the directory
    texts = {}
    runs = 0
    shown = []

    def problem(what, want, got):
        return what, dict(steps=shown), want, got

    try:
        for s in rec["hist"]:
            shown.append(s)
            if s["op"] in ("write", "mkdir"):
                p = os.path.join(d, s["file"])
                if s["op"] == "mkdir":
                    os.mkdir(p)
                    have[s["file"]] = None
                else:
                    t, want = rng.choice((NX if s["kind"] in NX and not s["file"].startswith(("c", ".json", "sub/c", "json")) else NE)[s["kind"]])
                    t = t.encode() if isinstance(t, str) else t
                    with open(p, "wb") as f:
                        f.write(t)
                    have[s["file"]] = t
                    texts[s["file"]] = (s["kind"], want)
                if "/" in s["file"]:
                    have.pop("sub", None)
                continue
            margin = 1e-4
            if s["op"] == "run":
                args = [s["file"]]
                for k, o in enumerate(s["opts"]):
                    args.append(o["flag"])
                    if o["has"] and not (s["cut"] and k == len(s["opts"]) - 1):
                        args.append(o["val"])
                        if o["o"] == "margin" and o["class"] in ("good", "tiny"):
                            margin = float(o["val"])
                exe = bins[s["prog"]]
            elif s["op"] == "usage":
                exe, args = bins["nxc"], [a for a in [s["arg"]] if a]
            else:
                exe, args = bins["neapolitan"], []
            shown[-1] = dict(s, argv=[os.path.basename(exe)] + args)
            try:
                p = subprocess.run([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            except subprocess.TimeoutExpired:
                return runs, problem("no end within 60 s", None, None)
            runs += 1
            out = p.stdout.decode("utf-8", "replace")
            say = (out + p.stderr.decode("utf-8", "replace"))[-600:]
            now = tree(d)
            if p.returncode not in (0, 1) or "panicked at" in say:
                return runs, problem("crash (status %s)" % p.returncode, "status 0 or 1", say)
            if s["op"] == "usage":
                if p.returncode != 0 or "USAGE" not in out.upper():
                    return runs, problem("usage", "the usage text and status 0", (p.returncode, say))
            elif s["op"] == "noarg":
                if p.returncode != 1:
                    return runs, problem("no file given", 1, (p.returncode, say))
            f = s.get("file")
            if f in have and now.get(f) != have[f]:
                return runs, problem("the input file changed", str(have[f]), str(now.get(f)))
            extra = {k for k in set(now) | set(have) if now.get(k, 0) != have.get(k, 0)}
            if s["op"] == "run":
                if s["expect"] == "free":
                    if s["out"] and p.returncode == 0:
                        extra.discard(s["out"])
                    if extra:
                        return runs, problem("files changed", [], sorted(extra))
                    continue
                good = s["expect"] == "yes"
                if (p.returncode == 0) != good:
                    return runs, problem("exit status", 0 if good else 1, (p.returncode, say))
                if not good and not say.strip():
                    return runs, problem("nothing said about the failure", "a message", say)
                if good:
                    kind, want = texts[f]
                    if s["out"]:
                        if now.get(s["out"]) is None:
                            return runs, problem("no output file", s["out"], sorted(now))
                        extra.discard(s["out"])
                        text = now[s["out"]].decode("utf-8", "replace")
                        have[s["out"]] = now[s["out"]]
                        if "/" in s["out"]:
                            have.pop("sub", None)
                        texts.pop(s["out"], None)
                    else:
                        text = out
                    w = nx_solution(text, want, margin, kind) if s["prog"] == "nxc" else ne_solution(text, want)
                    if w:
                        return runs, problem("solution: " + w, want, text[-600:])
                elif s["kind"] != "solution" and re.search(r"(?m)^Solution:", out):
                    return runs, problem("a failing run prints a solution", None, out[-600:])
            if extra:
                return runs, problem("files changed", [], sorted(extra))
        return runs, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    nxc, nea = ctx.build_bins()
    # the programs run as copies, out of reach of what they write
    recs = ctx.tlc("Cli", sim=(20 if ctx.quick else 400, 200), parallel=8)
    jobs = [(dict(nxc=nxc, neapolitan=nea), ctx.tmp, r, ctx.seed * 100000 + k) for k, r in enumerate(recs)]
    runs = 0
    with cf.ThreadPoolExecutor(12) as ex:
        for r, (n, bad) in zip(recs, ex.map(play, jobs)):
            runs += n
            if bad:
                ctx.violation("command line: " + bad[0], bad[1], bad[2], bad[3])
            else:
                ctx.ok()
                ctx.sample([[s["op"], s.get("prog"), s.get("file"), s.get("expect")] for s in r["hist"]])
    ctx.extra["program_runs"] = runs
    ctx.assumptions.append("no links between the files of a directory; file names differ from option names")
