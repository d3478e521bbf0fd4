"""Check runner: drives the real code, records calls, has TLC judge them against the TLA+ spec."""
from __future__ import annotations
import argparse, hashlib, importlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARDS = 8


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    """Not an Exception: must not be swallowed by `except Exception` in the code under test."""


def _alarm(signum, frame):
    raise CaseTimeout()


def java(args, env=None, heap="1500m", c2=False, timeout=None):
    tmp = os.path.dirname(args[args.index("-metadir") + 1])
    cmd = ["java", f"-Djava.io.tmpdir={tmp}", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m"]
    if not c2:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", *args]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    return subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8", errors="surrogateescape")


BAD = re.compile(r'^<<"BAD", (\d+), \{(.*)\}>>$')


def judge(trace_file, module, verdict, scratch, c2=False):
    """Have TLC judge the ndjson trace; returns ({line_no: [clauses]}, states)."""
    skip = restarts = 0
    bad: dict[int, list[str]] = {}
    total_states = 0
    with open(trace_file, encoding="utf-8") as f:
        lines = f.readlines()
    if not lines:
        return bad, 0
    while skip < len(lines):
        work = tempfile.mkdtemp(dir=scratch)
        tf = os.path.join(work, "trace.ndjson")
        with open(tf, "w", encoding="utf-8") as f:
            f.writelines(lines[skip:])
        cfg = os.path.join(work, "judge.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION JSpec\nCONSTANT Verdict <- {verdict}\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n")
        p = java(["-workers", "1", "-metadir", os.path.join(work, "st"), "-config", cfg, os.path.join(SPEC, module + ".tla")], env={"TRACE": tf}, c2=c2)
        out, _ = p.communicate()
        last = 0
        # TLC breaks long values over several lines: join them back
        buf = None
        for ln in out.splitlines():
            if ln.startswith('<<') and '"BAD"' in ln[:10]:
                buf = ln
            elif buf is not None:
                buf += " " + ln.strip()
            if buf is not None and buf.rstrip().endswith(">>"):
                m = re.match(r'^<<\s*"BAD",\s*(\d+),\s*\{(.*)\}\s*>>$', buf)
                if not m:
                    raise MachineryError("unparsed verdict: " + buf)
                bad[skip + int(m[1])] = re.findall(r'"([^"]*)"', m[2])
                buf = None
        sm = ([None] + list(re.finditer(r"([\d,]+) distinct states found", out)))[-1]
        if "Model checking completed. No error has been found." in out:
            total_states += int(sm[1].replace(",", "")) if sm else 0
            shutil.rmtree(work)
            return bad, total_states
        # An evaluation error: the recorded value lies outside every value the specification types
        st = re.findall(r"/\\ l = (\d+)", out)
        if st and "Evaluating" not in "" and re.search(r"Error: ", out) and "OutOfMemory" not in out and "StackOverflow" not in out:
            k = int(st[-1])
            if os.environ.get("VERIF_DEBUG"):
                print(out[:6000], file=sys.stderr)
            bad[skip + k] = ["outside_spec_types"]
            bad_out.append(out[-3000:])
            skip += k
            shutil.rmtree(work)
            restarts += 1
            if restarts >= 8:  # enough to report: the rest stays unjudged
                break
            continue
        raise MachineryError("TLC failed on " + module + "\n" + "\n".join(x for x in out.splitlines() if x and not re.match(r"State \d+:|/\\ (l|bad) = |Parsing|Semantic", x))[-3500:])
    return bad, total_states


bad_out: list[str] = []


class Model:
    """An exhaustive TLC run of the design; `emit` collects the cases it prints."""

    def __init__(self, module, cfg=None, workers=2, emit=False, thorough_cfg=None, c2=False, heap="2g"):
        self.module, self.cfg, self.workers, self.emit, self.thorough_cfg, self.c2, self.heap = module, cfg or module, workers, emit, thorough_cfg, c2, heap

    def start(self, scratch, tier):
        cfg = self.thorough_cfg if tier == "thorough" and self.thorough_cfg else self.cfg
        self.out = os.path.join(tempfile.mkdtemp(dir=scratch), "out")
        self.proc = java(["-workers", str(self.workers), "-metadir", self.out + ".st", "-config", os.path.join(SPEC, cfg + ".cfg"), os.path.join(SPEC, self.module + ".tla")], c2=self.c2, heap=self.heap, env={"EMIT": "1" if self.emit else "0"})

    def finish(self):
        out, _ = self.proc.communicate()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if "Model checking completed. No error has been found." not in out or not m:
            raise MachineryError(f"model {self.module} failed\n" + "\n".join(x for x in out.splitlines() if not x.startswith('"CASE'))[-4000:])
        self.generated, self.distinct = int(m[1]), int(m[2])
        cases = []
        if self.emit:
            seen = set()
            for ln in out.splitlines():
                if ln.startswith('"CASE '):
                    s = json.loads(ln)[5:]
                    if s not in seen:
                        seen.add(s)
                        cases.append(json.loads(s))
        return cases


def load(pid):
    return importlib.import_module("props." + pid.lower())


def run_case(mod, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.execute(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(args):
    mod = load(args.id)
    d = args.dir
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    scratch = os.path.join(d, f"s{args.tag}")
    os.makedirs(scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    if args.cases:
        with open(args.cases) as f:
            cases = (json.loads(x) for x in f.readlines())
    else:
        rng = random.Random(f"{args.id}/{args.seed}/{args.shard}")
        n = (mod.THOROUGH_N if args.tier == "thorough" else mod.QUICK_N) // NSHARDS
        cases = mod.gen(rng, n, args.shard, args.tier)
    trace, casef = os.path.join(d, f"trace{args.tag}.ndjson"), os.path.join(d, f"cases{args.tag}.ndjson")
    n = 0
    limit = getattr(mod, "CASE_TIMEOUT", 20)
    bad: dict[int, list[str]] = {}
    kinds: dict[str, int] = {}
    distinct = set()
    t0 = time.time()
    with open(trace, "w") as tf, open(casef, "w") as cf:
        for case in cases:
            crash = ""
            try:
                ev = run_case(mod, case, limit)
            except CaseTimeout:
                ev = None
            except Exception:  # of the calls that only set the scene: these succeed on a correct tree
                ev = None
                crash = traceback.format_exc()
            cs = json.dumps(case, sort_keys=True)
            distinct.add(hashlib.md5(cs.encode()).digest())
            cf.write(cs + "\n")
            n += 1
            if ev is None:
                bad[n] = ["no_answer"] if not crash else ["crash: " + crash[-1500:]]
                ev = getattr(mod, "IDLE", {"op": "idle"})
            tf.write(json.dumps(ev) + "\n")
            k = mod.kind(case, ev) if hasattr(mod, "kind") else str(ev.get("op", ""))
            kinds[k] = kinds.get(k, 0) + 1
    t1 = time.time()
    tlc_bad, states = judge(trace, mod.JUDGE, mod.VERDICT, scratch, c2=getattr(mod, "C2", False))
    for k, v in tlc_bad.items():
        bad.setdefault(k, v)
    lines = open(casef).readlines()
    tl = open(trace).readlines()
    res = {"n": n, "distinct": len(distinct), "states": states, "kinds": kinds, "t_exec": t1 - t0, "t_judge": time.time() - t1, "tlc_errors": bad_out[:3],
           "bad": [{"case": json.loads(lines[k - 1]), "clauses": v, "event": json.loads(tl[k - 1])} for k, v in sorted(bad.items())[:2000]],
           "nbad": len(bad), "samples": [json.loads(x) for x in lines[: 1]] + [json.loads(x) for x in lines[n // 2: n // 2 + 1]]}
    with open(os.path.join(d, f"result{args.tag}.json"), "w") as f:
        json.dump(res, f)


def spawn(args, d, tag, shard=None, cases=None):
    cmd = [sys.executable, "-B", "-m", "run", args.id, "--worker", "--dir", d, "--tag", tag, "--seed", str(args.seed), "--tier", args.tier]
    if shard is not None:
        cmd += ["--shard", str(shard)]
    if cases:
        cmd += ["--cases", cases]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def collect(procs, d):
    res = []
    for tag, p in procs:
        out, _ = p.communicate()
        rf = os.path.join(d, f"result{tag}.json")
        if p.returncode != 0 or not os.path.exists(rf):
            raise MachineryError(f"worker {tag} failed ({p.returncode}):\n" + out.decode(errors="replace")[-4000:])
        res.append(json.load(open(rf)))
    return res


def canon(x):
    return json.dumps(x, sort_keys=True)


def run(args):
    t0 = time.time()
    mod = load(args.id)
    d = tempfile.mkdtemp(prefix=f"verif-{args.id}-")
    os.chmod(d, 0o755)
    try:
        findings = []
        kf = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(kf):
            findings = [f for f in json.load(open(kf))["findings"] if f["property"] == args.id]
        models = mod.MODELS
        for m in models:
            m.start(d, args.tier)
        shards = [(f"r{i}", spawn(args, d, f"r{i}", shard=i)) for i in range(NSHARDS)]
        emitted = []
        for m in models:
            emitted += m.finish()
        procs2 = []
        fixed = list(mod.fixed_cases()) if hasattr(mod, "fixed_cases") else []
        if hasattr(mod, "from_model"):
            emitted = [c for e in emitted for c in mod.from_model(e)]
        emitted += fixed + [f["case"] for f in findings]
        if emitted:
            k = max(1, min(NSHARDS, len(emitted) // 200 or 1))
            for i in range(k):
                cf = os.path.join(d, f"emit{i}.ndjson")
                with open(cf, "w") as f:
                    for c in emitted[i::k]:
                        f.write(canon(c) + "\n")
                procs2.append((f"e{i}", spawn(args, d, f"e{i}", cases=cf)))
        results = collect(shards, d) + collect(procs2, d)
        # verdict
        known = {canon(f["case"]): f for f in findings}
        viol, hit = [], {}
        for r in results:
            for b in r["bad"]:
                f = known.get(canon(b["case"]))
                if f is not None and set(b["clauses"]) <= set(f["clauses"]):
                    hit[canon(b["case"])] = f
                else:
                    viol.append(b)
        nbad = sum(r["nbad"] for r in results)
        kinds: dict[str, int] = {}
        for r in results:
            for k, v in r["kinds"].items():
                kinds[k] = kinds.get(k, 0) + v
        states = sum(m.distinct for m in models) + sum(r["states"] for r in results)
        trans = sum(m.generated for m in models) + sum(r["n"] for r in results)
        samples = [s for r in results for s in r["samples"]][:6]
        ev = {"property": args.id, "tier": args.tier, "seed": args.seed, "level": "model_checking",
              "coverage": {"states": states, "transitions": trans,
                           "traces_validated_against_impl": sum(r["n"] for r in results),
                           "samples": samples,
                           "model_states": {m.module: m.distinct for m in models},
                           "replayed_from_model": len(emitted) - len(fixed) - len(findings),
                           "distinct_cases_upper": sum(r["distinct"] for r in results),
                           "cases_by_kind": kinds,
                           "judge": f"{mod.JUDGE}!{mod.VERDICT}"},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", args.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in findings:
            st = "" if canon(f["case"]) in hit else " (no longer fails)"
            if not st:
                print(f"KNOWN-FINDING: property={args.id} {f['what']}")
        print(f"{args.id} {args.tier}: {ev['coverage']['traces_validated_against_impl']} calls judged, {states} states, {nbad} bad, {ev['wall_s']} s", file=sys.stderr)
        if args.verbose:
            print({k: round(v, 1) for k, v in {"exec": max(r["t_exec"] for r in results), "judge": max(r["t_judge"] for r in results)}.items()}, ev["coverage"]["model_states"], kinds, file=sys.stderr)
        if viol:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            h = hashlib.md5(canon(viol[0]["case"]).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, "replays", f"{args.id}-{h}.json")
            viol.sort(key=lambda b: len(canon(b["case"])))
            seen: dict[str, int] = {}
            others = []
            for b in viol[1:]:  # a few of every sort
                c = b["case"]
                k = canon([sorted(b["clauses"]), c.get("op"), c["res"].get("fmt") if isinstance(c.get("res"), dict) else c.get("fmt")])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= (3 if len(seen) < 12 else 1) and len(others) < 60:
                    others.append(b)
            with open(path, "w") as f:
                json.dump({"property": args.id, "case": viol[0]["case"], "clauses": viol[0]["clauses"], "event": viol[0]["event"], "others": others, "tlc": [e for r in results for e in r["tlc_errors"]][:2]}, f, indent=1)
            cl: dict[str, int] = {}
            for b in viol:
                for c in b["clauses"]:
                    cl[c] = cl.get(c, 0) + 1
            print(f"{args.id}: {len(viol)} recorded calls are not behaviours of the specification; clauses {cl}")
            print(f"VIOLATION property={args.id} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(args):
    mod = load(args.id)
    case = json.load(open(args.replay))["case"]
    d = tempfile.mkdtemp(prefix=f"verif-{args.id}-")
    try:
        cf = os.path.join(d, "c.ndjson")
        with open(cf, "w") as f:
            f.write(canon(case) + "\n")
        r = collect([("x", spawn(args, d, "x", cases=cf))], d)[0]
        print(json.dumps(r["bad"], indent=1))
        for e in r["tlc_errors"]:
            print(e)
        if r["bad"]:
            print(f"VIOLATION property={args.id} replay={args.replay}")
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--dir"); ap.add_argument("--tag"); ap.add_argument("--shard", type=int); ap.add_argument("--cases")
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    if args.worker:
        worker(args)
        return 0
    try:
        return replay(args) if args.replay else run(args)
    except MachineryError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        return 2


