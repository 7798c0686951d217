"""Shared machinery: building the harness, running cases through the real code,
running TLC, validating traces, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = max(1, min(8, os.cpu_count() or 1))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (not a violation)."""


# ---------------------------------------------------------------- work area

_work = None


def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run-", dir=base)
    return _work


def cleanup():
    if _work and os.path.realpath(_work).startswith(os.path.join(os.path.realpath(VERIF), ".work") + os.sep):
        shutil.rmtree(_work, ignore_errors=True)


# ---------------------------------------------------------------- building

_bins = {}


def build(variant="asan", tool=False):
    key = (variant, tool)
    if key not in _bins:
        out = os.path.join(VERIF, ".build", variant)
        os.makedirs(out, exist_ok=True)
        p = subprocess.run([os.path.join(VERIF, "harness", "build.sh"), variant, out] + ["tool"] * tool,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, REPO=REPO))
        if p.returncode:
            raise CheckError("build of %s failed:\n%s" % (variant, p.stderr.decode(errors="replace")[-4000:]))
        _bins[key] = p.stdout.decode().strip().splitlines()[-1]
    return _bins[key]


def dumpsubs(name, data):
    """What the dumpsubs tool does with a file: (exit status, output)"""
    binary = build("asan", True)
    scratch = tempfile.mkdtemp(prefix="t-", dir=work())
    path = os.path.join(scratch, name)
    try:
        if data is not None:
            with open(path, "wb") as f:
                f.write(data)
        p = subprocess.run([binary, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **SAN_ENV), timeout=60)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "hang", b""
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- running cases

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    "LC_ALL": "C",
}


def _run_part(binary, cases, env, result):
    """Run cases in one harness process, restarting it after a crash."""
    todo = list(cases)
    while todo:
        scratch = tempfile.mkdtemp(prefix="h-", dir=work())
        data = "".join(json.dumps(c) + "\n" for c in todo).encode()
        try:
            p = subprocess.run([binary, scratch], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        n = 0
        for l in p.stdout.decode("utf-8", "replace").splitlines():
            try:
                o = json.loads(l)
            except ValueError:
                break
            result[o["id"]] = o
            n += 1
        if n == len(todo) and p.returncode == 0:
            return
        if p.returncode in (97, 98):
            raise CheckError("harness refused a case: %s" % p.stderr.decode(errors="replace")[-500:])
        if n == len(todo):
            # everything answered but the process ended badly: blame the last case
            n -= 1
        err = "hang" if p.returncode == -14 else "crash"
        c = todo[n]
        result[c["id"]] = {"id": c["id"], "err": err, "rc": p.returncode,
                           "stderr": p.stderr.decode(errors="replace")[:1500]}
        todo = todo[n + 1:]


def run_cases(cases, variant="asan", env=None, procs=NCPU):
    """Give each case an id, run them all, return the observations in order."""
    binary = build(variant)
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    for i, c in enumerate(cases):
        c["id"] = i
    result = {}
    procs = max(1, min(procs, (len(cases) + 19) // 20))
    parts = [cases[i::procs] for i in range(procs)]
    with ThreadPoolExecutor(procs) as ex:
        for f in [ex.submit(_run_part, binary, p, e, result) for p in parts if p]:
            f.result()
    missing = [c["id"] for c in cases if c["id"] not in result]
    if missing:
        raise CheckError("no observation for %d cases" % len(missing))
    return [result[i] for i in range(len(cases))]


# ---------------------------------------------------------------- bytes

HEXKEYS = {"t", "msg", "dump", "out", "again", "str", "desc", "code"}
HEXLISTS = {"ctx", "fn", "strings"}


def ints(h):
    return list(bytes.fromhex(h))


def deep_ints(o):
    """Turn the hex strings of an observation into the byte lists that the specs use."""
    if isinstance(o, dict):
        r = {}
        for k, v in o.items():
            if k in HEXKEYS and isinstance(v, str):
                r[k] = ints(v)
            elif k in HEXLISTS and isinstance(v, list):
                r[k] = [ints(x) for x in v]
            elif k == "meta":
                r[k] = [[list(a.encode()), ints(b)] for a, b in v]
            else:
                r[k] = deep_ints(v)
        return r
    if isinstance(o, list):
        return [deep_ints(x) for x in o]
    return o


def show(b):
    """Bytes for a human."""
    if isinstance(b, list):
        b = bytes(b)
    return repr(b)[1:]


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"Invariant (\w+) is violated", out)

    def json(self):
        """The JSON values printed by PrintT(ToJson(...))."""
        for l in self.out.splitlines():
            if l.startswith('"{') or l.startswith('"['):
                yield json.loads(json.loads(l))

    def tail(self):
        return "\n".join(l[:600] for l in self.out.splitlines() if not l.startswith('"'))[-3500:]


_tlc_n = [0]
_lock = threading.Lock()


def tlc(module, cfg, env=None, workers=None, timeout=None, heap=None):
    with _lock:
        _tlc_n[0] += 1
        n = _tlc_n[0]
    d = os.path.join(work(), "tlc%d" % n)
    os.makedirs(d)
    cfgfile = os.path.join(d, "m.cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ["java", "-Xss256m", "-Xmx%s" % (heap or "3g"), "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else 4),
           "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", str(workers or NCPU), "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "md"), "-config", cfgfile, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s took longer than %s s" % (module, timeout))
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    return Tlc(out, p.returncode)


def mc(module, constants, invariants, spec="Spec", view=None, extra="", workers=None, properties=()):
    """Model check; a violated invariant here means that the specification itself does not
    have the property, which is an error of this framework, not of the code."""
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if constants:
        cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items())
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    for i in properties:
        cfg += "PROPERTY %s\n" % i
    if view:
        cfg += "VIEW %s\n" % view
    cfg += extra
    r = tlc(module, cfg, workers=workers)
    if not r.ok:
        raise CheckError("TLC on %s: the specification does not satisfy %s\n%s" % (module, r.violated, r.tail()))
    return r


NOT_EVALUATED = re.compile("Attempted to|while evaluating|when evaluating|In evaluation|tried to access|nonexistent")


def validate(module, records, shards=NCPU, constants=None):
    """Check trace records (dicts with "id") against a Trace module.  Returns
    ({id: what the specification says}, states explored)."""
    if not records:
        return {}, 0
    shards = max(1, min(shards, (len(records) + 7) // 8))
    # spread by size so that the shards take about as long
    order = sorted(records, key=lambda r: -len(json.dumps(r)))
    parts = [order[i::shards] for i in range(shards)]
    cfg = "INIT Init\nNEXT Next\nVIEW View\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n"
    if constants:
        cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items())

    n = [0]

    def run(part):
        with _lock:
            n[0] += 1
            path = os.path.join(work(), "trace-%s-%d-%d.ndjson" % (module, id(records), n[0]))
        with open(path, "w") as f:
            for r in part:
                f.write(json.dumps(r) + "\n")
        t = tlc(module, cfg, env={"TRACE": path}, workers=1, heap="2g")
        os.unlink(path)
        if t.ok and ("DONE %d" % len(part)) in t.out:
            return t, {}
        # A record in which a field is missing, or is of another kind than the specification
        # knows of, cannot be evaluated: it is no behaviour of the specification.  Find one.
        if not NOT_EVALUATED.search(t.out) or "java.lang." in t.out and "Error" in t.out:
            raise CheckError("TLC could not process a trace for %s:\n%s" % (module, t.tail()))
        if len(part) == 1:
            return t, {part[0]["id"]: "not to be evaluated: " + t.tail()[-600:]}
        for half in (part[:len(part) // 2], part[len(part) // 2:]):
            t, b = run(half)
            if b:
                return t, b
        raise CheckError("TLC could not process a trace for %s:\n%s" % (module, t.tail()))

    bad, states = {}, 0
    with ThreadPoolExecutor(shards) as ex:
        for t, b in ex.map(run, parts):
            states += t.distinct
            bad.update(b)
            for l in t.out.splitlines():
                if l.startswith('"MISMATCH '):
                    m = json.loads(json.loads(l)[len("MISMATCH "):])
                    bad[m["id"]] = m.get("x")
    return bad, states


# ---------------------------------------------------------------- reporting

def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


class Check:
    """One run of one property's check."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.violations, self.assumptions = [], {}, [], []
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.exhaustive = []
        self.findings_seen = {}
        self.matchers = {}

    def count(self, what, n):
        if os.environ.get("VERIF_TIMES"):
            print("  [%6.1f s] %s: %d" % (time.time() - self.t0, what, n), flush=True)
        self.parts[what] = self.parts.get(what, 0) + n

    def spec_states(self, t):
        self.states += t.distinct
        self.transitions += max(0, t.generated - 1)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, why, case, expected, observed):
        for f in known_findings():
            if f["property"] == self.pid and f["match"] in self.matchers:
                if self.matchers[f["match"]](case, expected, observed):
                    self.findings_seen.setdefault(f["id"], f)
                    return
        self.violations.append({"why": why, "case": case, "expected": expected, "observed": observed})

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.parts)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"])
        if self.exhaustive:
            cov["exhaustive_spaces"] = self.exhaustive
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for f in self.findings_seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        if self.violations:
            vd = os.path.join(VERIF, "violations")
            os.makedirs(vd, exist_ok=True)
            path = os.path.join(vd, "%s-%d.json" % (self.pid, SEED))
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  %s" % v["why"][:2000])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: held; %d specification states, %d runs of the code compared (%.1f s)" %
              (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0

    # ---- the two directions of conformance

    def confirm(self, cases, bad, judge, variant, env):
        """bad: indices of rejected cases.  A rejection counts once it has been seen again: on its
        own (some things, such as races, are not seen every time) or after the same other
        cases.  judge([(index, observation)]) -> {index: what is wrong}."""
        bad, seen = bad[:12], {}
        for _ in range(4):
            todo = [i for i in bad if i not in seen]
            if not todo or len(seen) >= 3:
                break
            obs = [(i, run_cases([dict(cases[i])], variant, env)[0]) for i in todo]
            w = judge(obs)
            for i, o in obs:
                if i in w:
                    seen[i] = (w[i], o)
        if bad and not seen:
            obs = run_cases([dict(c) for c in cases], variant, env)
            w = judge([(i, obs[i]) for i in bad])
            for i in w:
                seen[i] = (w[i], obs[i])
        return seen

    def replay(self, label, expected, to_case, agree, variant="asan", env=None, describe=None):
        """Run what the specification generated through the real code and compare.
        expected: list of specification values; to_case(x) -> harness case;
        agree(x, observation) -> bool."""
        cases = [to_case(x) for x in expected]
        obs = run_cases(cases, variant, env)

        def same(x, o):
            try:
                return agree(x, deep_ints(o))
            except (KeyError, IndexError, TypeError, ValueError, AttributeError):
                # the observation lacks what is expected of it
                return False
        bad = [i for i, (x, o) in enumerate(zip(expected, obs)) if not same(x, o)]
        self.traces += len(cases)
        self.count(label, len(cases))
        seen = self.confirm(cases, bad, lambda os: {i: 1 for i, o in os if not same(expected[i], o)}, variant, env)
        for i, (_, o) in sorted(seen.items()):
            x, c = expected[i], cases[i]
            self.violation("%s: %s" % (label, self.told(describe, (x, o),
                           "input %s expected %s got %s" % (c.get("in", c), json.dumps(x, default=str)[:600], json.dumps(o, default=str)[:600]))), c, x, o)
        if expected:
            self.sample({"replayed": label, "case": {k: v for k, v in cases[len(cases) // 2].items() if k != "id"}})
        return obs

    def told(self, describe, args, otherwise):
        try:
            return describe(*args) if describe else otherwise
        except (KeyError, IndexError, TypeError, ValueError, AttributeError):
            return otherwise

    def record(self, label, module, cases, to_record, variant="asan", env=None, describe=None, constants=None):
        """Run cases through the real code and validate what was recorded with a Trace module.
        to_record(case, observation) -> dict (without id)."""
        obs = run_cases(cases, variant, env)

        def judge(os, shards=NCPU):
            recs, wrong = [], {}
            for i, o in os:
                try:
                    r = to_record(cases[i], deep_ints(o))
                except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                    wrong[i] = "not to be recorded: %r" % e
                    continue
                r["id"] = i
                recs.append(r)
            b, states = validate(module, recs, shards=shards, constants=constants)
            wrong.update(b)
            return wrong, states
        bad, states = judge(list(enumerate(obs)))
        self.states += states
        self.transitions += max(0, states - 1)
        self.traces += len(cases)
        self.count(label, len(cases))
        seen = self.confirm(cases, sorted(bad), lambda os: judge(os, 1)[0], variant, env)
        for i, (b, o) in sorted(seen.items()):
            c = cases[i]
            self.violation("%s: %s" % (label, self.told(describe, (c, b, o),
                           "case %s specification says %s, code gave %s" % (json.dumps(c, default=str)[:700], json.dumps(b, default=str)[:700], json.dumps(o, default=str)[:700]))), c, b, o)
        if cases:
            self.sample({"recorded": label, "case": {k: v for k, v in cases[len(cases) // 2].items() if k != "id"}})
        return obs


def main(pid, run):
    c = Check(pid)
    try:
        run(c)
        rc = c.finish()
    except CheckError as e:
        print("ERROR: check %s could not run: %s" % (pid, e))
        rc = 2
    finally:
        cleanup()
    sys.exit(rc)
