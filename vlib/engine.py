"""Generated-input search: choice sequences, shrinking, replay files and evidence.

A check draws every decision from a Draw.  A Draw records its decisions as small
integers (0 is always the simplest), so a failing case can be replayed exactly and made
simpler by lowering or dropping decisions.
"""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """The library broke the property on this input."""

    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.key = key


class Draw(object):
    """Source of decisions: random, or replayed from a recorded sequence."""

    def __init__(self, rng=None, prefix=None, index=0, orders=None):
        self.rng = rng
        self.prefix = prefix
        self.index = index
        self.orders = orders if orders is not None else {}
        self.record = []

    def below(self, n, pick=None):
        """An integer in [0, n); 0 is the simplest."""
        assert n >= 1
        pos = len(self.record)
        if self.prefix is not None:
            x = self.prefix[pos] if pos < len(self.prefix) else 0
            x = min(max(int(x), 0), n - 1)
        elif pick is not None:
            x = pick()
        else:
            x = self.rng.randrange(n)
        self.record.append(x)
        return x

    def integer(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def choice(self, options):
        """One of the options; the first is the simplest."""
        return options[self.below(len(options))]

    def weighted(self, pairs):
        """One of (option, weight); the first is the simplest."""
        total = sum(w for _, w in pairs)

        def pick():
            r = self.rng.random()*total
            for i, (_, w) in enumerate(pairs):
                r -= w
                if r < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.below(len(pairs), pick)][0]

    def flag(self, p=0.5):
        return self.weighted([(False, 1.0 - p), (True, p)])

    def spread(self, name, options):
        """Visit all options round-robin (in an order fixed by the seed) over a run."""
        options = list(options)

        def pick():
            key = (name, len(options))
            if key not in self.orders:
                order = list(range(len(options)))
                self.rng.shuffle(order)
                self.orders[key] = [order, 0]
            order, at = self.orders[key]
            self.orders[key][1] = at + 1
            return order[at % len(order)]
        return options[self.below(len(options), pick)]

    def seed(self):
        return self.below(2**31 - 1)

    def subset(self, items, p=0.5):
        return [x for x in items if self.flag(p)]

    def shuffled(self, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.below(len(items))))
        return out


class Counter(object):
    def __init__(self):
        self.labels = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


def call(what, fn, *args, **kwargs):
    """Call the library; an unexpected exception is a violation, not a harness error."""
    try:
        return fn(*args, **kwargs)
    except MemoryError:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                fields = dict(
                    f.split("=", 1) for f in line[8:].split() if "=" in f)
                out.append((fields.get("property"), fields.get("key"), line))
    return out


def _canon(case):
    return json.dumps(case, sort_keys=True)


class Runner(object):
    def __init__(self, mod, tier, seed):
        self.mod = mod
        self.tier = tier
        self.seed = seed
        self.known = [(k, l) for p, k, l in load_known() if p == mod.ID]
        self.reported = set()

    def execute(self, case, counter):
        """Evaluate one case; a result that cannot even be processed is a violation."""
        try:
            self.mod.execute(case, counter)
        except (Violation, MemoryError, ImportError):
            raise
        except Exception as e:
            if isinstance(e, AttributeError) and "module '" in str(e):
                raise       # a function this check needs does not exist
            at = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("%s while evaluating the result: %s (%s:%s)" % (
                type(e).__name__, e, os.path.basename(at.filename), at.lineno))

    def attempt(self, prefix):
        """Replay decisions; return (case, record, violation or None)."""
        d = Draw(prefix=prefix)
        case = self.mod.generate(d)
        try:
            self.execute(case, Counter())
        except Violation as v:
            return case, d.record, v
        return case, d.record, None

    def is_known(self, v):
        if v.key is None:
            return False
        for k, line in self.known:
            if k == v.key:
                if k not in self.reported:
                    self.reported.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.mod.ID, line))
                return True
        return False

    def shrink(self, record, case, violation, limit):
        t0 = time.time()
        best, bcase, bviol = list(record), case, violation
        seen = set()
        tries = 0

        def test(cand):
            nonlocal best, bcase, bviol, tries
            key = tuple(cand)
            if key in seen:
                return False
            seen.add(key)
            tries += 1
            c, rec, v = self.attempt(cand)
            if v is None or self.is_known(v):
                return False
            if (len(rec), rec) < (len(best), best):
                best, bcase, bviol = rec, c, v
                return True
            return False

        improved = True
        while improved and time.time() - t0 < limit:
            improved = False
            i = 0
            while i < len(best) and time.time() - t0 < limit:
                if best[i] > 0:
                    for x in (0, best[i]//2, best[i] - 1):
                        if x < best[i] and test(best[:i] + [x] + best[i+1:]):
                            improved = True
                            break
                i += 1
            for size in (8, 4, 2, 1):
                i = 0
                while i < len(best) and time.time() - t0 < limit:
                    if test(best[:i] + best[i+size:]):
                        improved = True
                    else:
                        i += 1
        return best, bcase, bviol, tries

    def write_replay(self, case, record, violation):
        os.makedirs(REPLAYS, exist_ok=True)
        body = {"property": self.mod.ID, "case": case, "decisions": record,
                "message": str(violation), "seed": self.seed, "tier": self.tier,
                "how": "cd /verif && ./run %s --replay <this file>" % self.mod.ID}
        name = "%s-%s.json" % (
            self.mod.ID, hashlib.sha1(_canon(case).encode()).hexdigest()[:12])
        path = os.path.join(REPLAYS, name)
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        return path

    def run(self):
        t0 = time.time()
        ncases, secs = self.mod.BUDGET[self.tier]
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        ncases, secs = int(ncases*scale), secs*max(scale, 1.0)
        rng = random.Random("%s/%d" % (self.mod.ID, self.seed))
        orders = {}
        counter = Counter()
        distinct = set()
        samples = []
        evaluations = 0
        violations = 0
        status = 0
        prepare = getattr(self.mod, "prepare", None)
        if prepare is not None:
            prepare(self.tier, self.seed)
        for index in range(ncases):
            if time.time() - t0 > secs:
                counter.label("not-run-time-limit", ncases - index)
                break
            d = Draw(rng=rng, index=index, orders=orders)
            case = self.mod.generate(d)
            evaluations += 1
            if self.mod.nontrivial(case):
                distinct.add(hashlib.sha1(_canon(case).encode()).digest()[:12])
                if len(samples) < 5:
                    samples.append(case)
            try:
                self.execute(case, counter)
            except Violation as v:
                if self.is_known(v):
                    counter.label("known-finding")
                    continue
                limit = 25.0 if self.tier == "quick" else 60.0
                rec, case, v, tries = self.shrink(d.record, case, v, limit)
                path = self.write_replay(case, rec, v)
                violations += 1
                counter.label("shrink-tries", tries)
                print("property %s fails: %s" % (self.mod.ID, v))
                print("smallest case: %s" % _canon(case)[:2000])
                print("VIOLATION property=%s replay=%s" % (self.mod.ID, path))
                status = 1
                break
        evidence = {
            "property": self.mod.ID, "tier": self.tier, "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(distinct),
                "rule": "Cases: every size, value kind and seed drawn at random (sizes "
                        "round-robin over a fixed grid) from VERIF_SEED. %s "
                        "Non-trivial: %s." % (
                            self.mod.__doc__.strip(), self.mod.RULE),
                "samples": samples if samples else [None],
                "labels": dict(sorted(counter.labels.items())),
                "exhaustive": False,
            },
            "assumptions": list(getattr(self.mod, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - t0, 3),
            "violations": violations,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, "%s.json" % self.mod.ID)
        tmp = path + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, path)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (
            self.mod.ID, self.tier, self.seed, evaluations, len(distinct),
            violations, time.time() - t0))
        return status

    def replay(self, path):
        body = json.load(open(path))
        try:
            self.execute(body["case"], Counter())
        except Violation as v:
            print("property %s fails: %s" % (self.mod.ID, v))
            print("VIOLATION property=%s replay=%s" % (self.mod.ID, path))
            return 1
        print("replay of %s: property %s held" % (path, self.mod.ID))
        return 0


def main(argv):
    if not argv:
        print("usage: run <property> [--replay FILE]", file=sys.stderr)
        return 2
    try:
        pid = argv[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            raise ValueError("unknown tier %r" % tier)
        seed = int(os.environ.get("VERIF_SEED", "0"))
        warnings.simplefilter("ignore")
        import cqcpy
        where = os.path.dirname(os.path.dirname(os.path.abspath(cqcpy.__file__)))
        repo = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
        if where != repo:
            raise RuntimeError("cqcpy comes from %s, not %s" % (where, repo))
        mod = importlib.import_module("checks.%s" % pid.lower())
        runner = Runner(mod, tier, seed)
        if len(argv) >= 3 and argv[1] == "--replay":
            return runner.replay(argv[2])
        return runner.run()
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed", file=sys.stderr)
        return 2
