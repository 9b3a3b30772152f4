"""Facets, generated-input search, shrinking, replay and evidence.

A property is a list of facets. A facet is a generator of cases (plain JSON values), an oracle that runs one case
against the library, a rule saying which cases are non-trivial, and a number of cases per tier. The search is a pure
function of the code under test and VERIF_SEED: numbers of cases are fixed, and every case starts the library afresh."""
import hashlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback, zlib
from . import build
from .driver import Driver, Fail, HarnessError

ROOT = build.HERE
SOFT_CAP = float(os.environ.get("VF_SOFT_CAP", "420"))   # seconds of search in the quick tier; reported if it is ever hit
SHRINK_SECONDS = 60


class Facet:
    """gen: function (rng) -> case, or plan: function (rng, count) -> list of cases.
    check(case, ctx) raises Fail. nontrivial(case) is the stated rule. valid(case): the domain, for shrinking."""

    def __init__(self, name, driver, check, quick, thorough, gen=None, plan=None, shrink=None, nontrivial=None, variant="san", cpu=60,
                 rule="", shards=8, valid=None, chain=0.1, mix=None, confirm=None):
        self.name, self.driver, self.variant, self.check = name, driver, variant, check
        self.quick, self.thorough, self.gen, self.plan, self.shrink = quick, thorough, gen, plan, shrink
        self.nontrivial = nontrivial or (lambda c: True)
        self.cpu, self.rule, self.shards = cpu, rule, shards
        self.confirm = confirm   # the facet that has to fail on the same case for a failure to count; this one replaces a part of the library
        self.chain = float(os.environ.get("VF_CHAIN", chain)) * (chain > 0) if gen else 0   # how often several cases are run one after another in one process
        self._valid = valid
        self.mix = valid is not None if mix is None else mix   # whether parts of cases can be exchanged
        self.valid = None if valid is None else lambda c: all(map(valid, links(c)))
        self._nontrivial, self.nontrivial = self.nontrivial, lambda c: any(map(self._nontrivial, links(c)))

    def case(self, rng):
        if not rng.chance(self.chain):
            return self.gen(rng)
        l = [self.gen(rng)]
        for _ in range(rng.int(1, 3)):
            l.append(self.sibling(rng, rng.pick(l)) if rng.chance(0.6) else self.gen(rng))
        if rng.chance(0.4):
            l.append(rng.pick(l[:-1]))
        return {"chain": l}

    def sibling(self, rng, case):
        """the case with some parts taken from another one, if that stays inside the domain"""
        new = self.gen(rng)
        if self.mix and isinstance(case, dict):
            take = rng.sample(sorted(case), min(len(case), rng.int(1, 2)))
            c = {**case, **{k: new[k] for k in take if k in new}}
            if self._valid is None or self._valid(c):
                return c
        return new


def links(case):
    return case["chain"] if isinstance(case, dict) and "chain" in case else [case]


class R(random.Random):
    """the only source of choices in generators"""

    lean = None   # gens.lean

    def int(self, lo, hi):
        v = R.lean(self, lo, hi) if R.lean else None
        return self.randint(lo, hi) if v is None else v

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def chance(self, p):
        return self.random() < p

    def weighted(self, *wf):
        """pairs weight, thunk"""
        t = self.random() * sum(w for w, _ in wf)
        for w, f in wf:
            t -= w
            if t < 0:
                return f()
        return wf[-1][1]()

    def size(self, lo, hi):
        """small sizes more often than large ones"""
        a, b = self.randint(lo, hi), self.randint(lo, hi)
        return min(a, b) if self.random() < 0.6 else max(a, b)


def shorter(case):
    """the variants of a case that are certain to be cases: one link of a chain less"""
    if isinstance(case, dict) and "chain" in case:
        c = case["chain"]
        for i in range(len(c)):
            if len(c) > 1:
                yield {**case, "chain": c[:i] + c[i + 1:]}


def shrinks(case):
    """smaller variants of a JSON value: lists lose elements, integers move towards 0, hexadecimal strings lose bytes"""
    if isinstance(case, dict):
        for k in case:
            for v in shrinks(case[k]):
                yield {**case, k: v}
    elif isinstance(case, (list, tuple)):
        case = list(case)
        n = len(case)
        w = n
        while w >= 1:
            for i in range(0, n - w + 1, w):
                yield case[:i] + case[i + w:]
            w //= 2
        for i in range(n):
            for v in shrinks(case[i]):
                yield case[:i] + [v] + case[i + 1:]
    elif isinstance(case, bool):
        if case:
            yield False
    elif isinstance(case, int):
        seen = {case}
        for v in (0, 1, 2, -case if case < 0 else 0, case >> 64, case >> 8, case >> 1, case & ~(case & -case) if case > 0 else 0, case - 1 if case > 0 else case + 1):
            if v not in seen and abs(v) <= abs(case):
                seen.add(v)
                yield v
        if case > 0 and case.bit_length() > 2:
            v = 1 << (case.bit_length() - 1)
            if v not in seen:
                yield v
    elif isinstance(case, str) and case.startswith("hex:"):
        h = case[4:]
        n = len(h) // 2
        w = n
        while w >= 1:
            for i in range(0, n - w + 1, w):
                yield "hex:" + h[:2 * i] + h[2 * (i + w):]
            w //= 2
        for i in range(n):
            if h[2 * i:2 * i + 2] != "00":
                yield "hex:" + h[:2 * i] + "00" + h[2 * i + 2:]


class Ctx:
    """what a check sees: a session with the driver, opened on first use"""

    def __init__(self, drivers, facet):
        self.drivers, self.facet, self.s, self.labels, self.known, self.inner = drivers, facet, None, [], [], 0   # inner: cases generated and decided inside the driver

    def open(self, cpu=None):
        if self.s is None:
            self.s = self.drivers[(self.facet.driver, self.facet.variant)].session(cpu or self.facet.cpu)
        return self.s

    def fresh(self):
        """ends the session and starts another one (another process as far as the library is concerned)"""
        if self.s is not None:
            self.s.close()
            self.s = None
        return self.open()

    def relaunch(self):
        """ends the session and starts the program anew, static initialisation included"""
        if self.s is not None:
            self.s.close()
            self.s = None
        self.drivers[(self.facet.driver, self.facet.variant)].kill()
        return self.open()

    def __call__(self, *cmds):
        return self.open()(*cmds)

    def one(self, cmd):
        return self.open()(cmd)[0]

    def attempt(self, cmd):
        """like one, but None if the library threw an exception"""
        return self.open().attempt(cmd)

    def label(self, *l):
        self.labels += l

    def known_finding(self, key, what):
        """the case shows a defect; it is a violation unless known_findings.txt lists exactly this key"""
        self.known.append((key, what))


def run_case(facet, case, drivers):
    """returns (labels, known); raises Fail / HarnessError"""
    ctx = Ctx(drivers, facet)
    ok = False
    try:
        chain = links(case)
        for c in chain:
            try:
                facet.check(c, ctx)
            except (Fail, HarnessError):
                raise
            except Exception:   # an oracle met an answer no correct library gives (a point missing, too few words)
                f = Fail("an answer is not of the form it must have\n" + traceback.format_exc(limit=-4))
                f.form = True
                raise f
        if len(chain) > 1:
            ctx.label("several cases in one process")
        if ctx.s is not None:
            ctx.s.close()
        ok = True
    finally:
        if not ok and ctx.s is not None:
            ctx.s.abandon()
    return ctx.labels, ctx.known, ctx.inner


def digest(case):
    return zlib.crc32(json.dumps(case, sort_keys=True).encode()) | (zlib.adler32(json.dumps(case, sort_keys=True).encode()) << 32)


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


# --- one task: a shard of a facet, run in a worker process
_W = {}


def _init(facets, paths, stop, findings, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W.update(facets=facets, paths=paths, stop=stop, findings=findings, deadline=deadline, drivers={k: Driver(v) for k, v in paths.items()})


class Search:
    def __init__(self, facet):
        self.f = facet
        self.n = self.inner = 0
        self.skipped = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.fail = None       # (size, case, message)
        self.form = False
        self.first_fail = None
        self.known = {}
        self.error = None
        self.unconfirmed = 0

    def over(self):
        return time.time() > _W["deadline"]

    def fails(self, facet, case):
        """the Fail, or None"""
        try:
            run_case(facet, case, _W["drivers"])
        except Fail as e:
            return e
        except HarnessError:
            if not facet.confirm:
                raise
            return Fail("no answer")
        return None

    def confirmed(self, case):
        """a case on which the facet that runs the whole library fails, too, with that failure; the search goes on with that facet.
        The case is first made smaller, as the whole library is slow."""
        small, end, progress = case, time.time() + 30, True
        while progress and time.time() < end:
            progress = False
            for c in shrinks(small):
                if time.time() > end:
                    break
                try:
                    smaller = (self.f.valid is None or self.f.valid(c)) and self.fails(self.f, c)
                except Exception:
                    smaller = None
                if smaller and not smaller.form:
                    small, progress = c, True
                    break
        real = next(f for f in _W["facets"] if f.name == self.f.confirm)
        for c in [small] if small == case else [small, case]:
            e = self.fails(real, c)
            if e:
                self.f = real
                return c, e
        self.unconfirmed += 1
        self.labels["failure that whole runs do not show"] = self.unconfirmed
        return None, None

    def trial(self, case):
        """True if the case fails"""
        try:
            try:
                labels, known, inner = run_case(self.f, case, _W["drivers"])
            except (Fail, HarnessError):
                if not self.f.confirm:
                    raise
                c, e = self.confirmed(case)
                if c is None:
                    return False
                case = c
                raise e
            for k, what in known:
                if k in _W["findings"]:
                    self.known[k] = what
                else:
                    raise Fail(what)
        except Fail as e:
            size = len(json.dumps(case))
            if self.fail is None or size < self.fail[0]:
                self.fail, self.form = (size, case, str(e)), e.form
            if self.first_fail is None:
                self.first_fail = time.time()
                _W["stop"].set()
            return True
        if self.first_fail is None:
            self.n += 1
            self.inner += inner
            for l in labels:
                self.labels[l] = self.labels.get(l, 0) + 1
            if self.f.nontrivial(case):
                d = digest(case)
                if d not in self.distinct:
                    self.distinct.add(d)
                    if len(self.samples) < 3 and (self.n < 3 or self.n % 17 == 0):
                        self.samples.append(case)
        return False

    def idle(self):
        """someone else failed, or time is up"""
        if self.first_fail is not None:
            return time.time() > self.first_fail + SHRINK_SECONDS
        return _W["stop"].is_set() or self.over() or self.unconfirmed > 2

    def generated(self, count, seed):
        rng = R(seed)
        for i in range(count):
            if self.idle():
                self.skipped += count - i
                return
            case = self.f.case(rng)
            if self.f.valid is not None and not self.f.valid(case):
                raise HarnessError("the generator made a case outside its domain: " + json.dumps(case)[:1000])
            if self.trial(case):
                self.greedy()
                return

    def planned(self, cases):
        for c in cases:
            if self.idle():
                self.skipped += 1
                continue
            if self.trial(c):
                self.greedy()
                return

    def still_fails(self, case):
        """during shrinking; cases that fall out of the domain do not count"""
        if case in self.tried:
            return False
        self.tried.append(case)
        try:
            if self.f.valid is not None and not self.f.valid(case):
                return False
            run = run_case(self.f, case, _W["drivers"])
            new = [w for k, w in run[1] if k not in _W["findings"]]
            if not new:
                return False
            msg = new[0]
        except Fail as e:
            if e.form and not self.form:    # a smaller case the check cannot read is no failure of the library
                return False
            msg = str(e)
        except Exception:
            return False
        self.fail = (len(json.dumps(case)), case, msg)
        return True

    def greedy(self):
        self.tried = []
        progress = True
        while progress and not self.idle():
            progress = False
            for c in (shorter if self.form else self.f.shrink or shrinks)(self.fail[1]):
                if self.idle():
                    return
                if self.still_fails(c):
                    progress = True
                    break


def _task(t):
    fi, shard, shards, count, seed, tier = t
    f = _W["facets"][fi]
    s = Search(f)
    t0 = time.time()
    try:
        if f.plan is not None:
            total = f.quick if tier == "quick" else f.thorough
            cases = f.plan(R(seed_of(seed, f.name)), total)
            s.planned([cases[i] for i in range(len(cases)) if i % shards == shard])
        else:
            s.generated(count, seed_of(seed, f.name, shard))
    except HarnessError as e:
        s.error = "harness error in %s: %s" % (f.name, e)
        _W["stop"].set()
    except Exception:
        s.error = "error in %s: %s" % (f.name, traceback.format_exc())
        _W["stop"].set()
    return dict(fi=fi, failed=_W["facets"].index(s.f), n=s.n, inner=s.inner, skipped=s.skipped, distinct=s.distinct, labels=s.labels, samples=s.samples, fail=s.fail, known=s.known, error=s.error,
                secs=time.time() - t0)


# --- a whole check
def load_findings(pid):
    """lines 'finding: property=<id> key=<key> <text>' of known_findings.txt"""
    r = {}
    p = os.path.join(ROOT, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid:
            r[w[2].split("=", 1)[1]] = w[3].strip()
    return r


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def evidence(pid, tier, seed, cov, wall, violations, assumptions):
    write_json(os.path.join(ROOT, "evidence", pid + ".json"),
               dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=violations))


def violation(pid, facet, case, msg, seed, tier):
    path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, facet))
    write_json(path, dict(property=pid, facet=facet, case=case, message=msg, seed=seed, tier=tier,
                          how="python3-vt run.py replay " + os.path.relpath(path, ROOT)))
    print("%s/%s: %s" % (pid, facet, msg[:3000]))
    print("case: " + json.dumps(case)[:3000])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()


def check(pid, facets, tier, seed, assumptions=()):
    t0 = time.time()
    names = [f.name for f in facets]
    assert len(set(names)) == len(names)
    built = build.build([(f.driver, f.variant) for f in facets if f.driver])
    tb = time.time() - t0
    dropped = [f.name for f in facets if f.confirm and isinstance(built[(f.driver, f.variant)], build.BuildFailed)]   # the library's parts no longer fit the replacement
    if dropped:
        print("not run, as the replaced part does not fit the library: " + ", ".join(dropped), file=sys.stderr)
        facets = [f for f in facets if f.name not in dropped]
        built = {k: v for k, v in built.items() if any((f.driver, f.variant) == k for f in facets)}
    bad = {k: v for k, v in built.items() if isinstance(v, build.BuildFailed)}
    rule = "; ".join("%s: %s" % (f.name, f.rule) for f in facets)
    if bad:
        (drv, var), e = sorted(bad.items())[0]
        log = build.build_log(str(e))
        evidence(pid, tier, seed, dict(evaluations=0, distinct_nontrivial=0, rule=rule, samples=["library does not build for driver " + drv]), time.time() - t0, 1, list(assumptions))
        violation(pid, "build", {"driver": drv, "variant": var}, "the library does not compile or link for this use of its interface\n" + log, seed, tier)
        return 1
    findings = load_findings(pid)
    stop = mp.Event()
    cap = SOFT_CAP if tier == "quick" else float(os.environ.get("VF_THOROUGH_CAP", "3000"))
    deadline = t0 + cap
    tasks = []
    for fi, f in enumerate(facets):
        total = f.quick if tier == "quick" else f.thorough
        if total <= 0:
            continue
        shards = max(1, min(f.shards, total))
        for sh in range(shards):
            tasks.append((fi, sh, shards, total // shards + (sh < total % shards), seed, tier))
    tasks.sort(key=lambda t: (t[1], t[0]))
    per = {}
    with mp.Pool(int(os.environ.get("VF_JOBS", os.cpu_count() or 4)), _init, (facets, {k: v for k, v in built.items()}, stop, findings, deadline)) as pool:
        for r in pool.imap_unordered(_task, tasks, 1):
            p = per.setdefault(r["fi"], dict(n=0, inner=0, skipped=0, distinct=set(), labels={}, samples=[], fails=[], known={}, errors=[], secs=0))
            p["n"] += r["n"]; p["inner"] += r["inner"]; p["skipped"] += r["skipped"]; p["distinct"] |= r["distinct"]; p["secs"] += r["secs"]
            for k, v in r["labels"].items():
                p["labels"][k] = p["labels"].get(k, 0) + v
            p["samples"] += r["samples"]
            p["known"].update(r["known"])
            if r["fail"]:
                p["fails"].append((r["fail"], r["failed"]))
            if r["error"]:
                p["errors"].append(r["error"])
    rc, nviol = 0, 0
    errors = [e for p in per.values() for e in p["errors"]]
    fails = sorted(((x, fi) for p in per.values() for x, fi in p["fails"]), key=lambda t: (t[0][0], t[1]))
    drivers = {k: Driver(v) for k, v in built.items()}
    for (size, case, msg), fi in fails[:6]:
        f = facets[fi]
        hits = runs = 0
        begun = time.time()
        while (runs < 3 or (hits == 0 and runs < 10)) and (runs == 0 or time.time() < begun + (30 if hits else 200)):   # a defect that needs luck (uninitialised memory, the clock) still counts
            runs += 1
            try:
                _, known, _ = run_case(f, case, drivers)
                hits += any(k not in findings for k, _ in known)
            except Fail as e:
                hits += 1
                msg = str(e)
            for d in drivers.values():
                d.kill()
        if hits:
            nviol += 1
            violation(pid, f.name, case, msg, seed, tier)
            rc = 1
            break
        errors.append("%s: case failed in the search and %d/%d times on replay: %s %s" % (f.name, hits, runs, msg, json.dumps(case)[:2000]))
    known = {}
    for p in per.values():
        known.update(p["known"])
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, findings[k]))
    cov = dict(evaluations=sum(p["n"] for p in per.values()), distinct_nontrivial=sum(len(p["distinct"]) for p in per.values()), rule=rule,
               samples=[{"facet": facets[fi].name, "case": json.loads(json.dumps(c)[:200000])} for fi in sorted(per) for c in per[fi]["samples"][:2] if len(json.dumps(c)) < 4000][:40],
               facets={facets[fi].name: dict(cases=p["n"], **({"cases_inside_the_driver": p["inner"]} if p["inner"] else {}), distinct_nontrivial=len(p["distinct"]), classes=p["labels"], cut_short=p["skipped"], cpu_s=round(p["secs"], 1))
                       for fi, p in sorted(per.items())},
               known_findings_seen=sorted(known), build_s=round(tb, 1), **({"not_run": dropped} if dropped else {}))
    if not cov["samples"]:
        cov["samples"] = [c for _, c, _ in (x for x, _ in fails)][:2] or ["none"]
    evidence(pid, tier, seed, cov, time.time() - t0, nviol, list(assumptions))
    for e in errors:
        print(e, file=sys.stderr)
    if rc == 0 and errors:
        return 2
    inside = sum(p["inner"] for p in per.values())
    cut = sum(p["skipped"] for p in per.values())
    print("%s %s: %d cases, %d distinct non-trivial%s%s, %.1f s (build %.1f s)" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"],
          ", %d inside the drivers" % inside if inside else "", ", %d cut short" % cut if cut and rc == 0 else "", time.time() - t0, tb))
    return rc


def replay(facets, rec, times=1):
    f = next((f for f in facets if f.name == rec["facet"]), None)
    if rec["facet"] == "build":
        f = None
        b = build.build([(rec["case"]["driver"], rec["case"]["variant"])])
        e = list(b.values())[0]
        if isinstance(e, build.BuildFailed):
            print(build.build_log(str(e)))
            return 1
        return 0
    b = build.build([(f.driver, f.variant)])
    for e in b.values():
        if isinstance(e, build.BuildFailed):
            print(build.build_log(str(e)))
            return 1
    findings = load_findings(rec["property"])
    for _ in range(times):
        try:
            _, known, _ = run_case(f, rec["case"], {k: Driver(v) for k, v in b.items()})
            for k, what in known:
                if k in findings:
                    print("KNOWN-FINDING: property=%s %s" % (rec["property"], findings[k]))
                else:
                    raise Fail(what)
        except Fail as e:
            print("fails: " + str(e))
            return 1
    print("holds on this case")
    return 0
