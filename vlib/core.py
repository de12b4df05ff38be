"""Verdict, evidence and case accounting shared by all checks."""
import hashlib
import json
import os
import pathlib
import random
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / 'evidence'
KNOWN = ROOT / 'known_findings.txt'


def load_known(pid):
    """{mechanism: text} of the findings listed for this property (``fixed:`` lines suppress nothing)."""
    found = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line.startswith('finding:'):
                parts = dict(p.split('=', 1) for p in line.split() if '=' in p and p.split('=')[0] in ('property', 'mechanism'))
                if parts.get('property') == pid:
                    found[parts['mechanism']] = line.split(parts['mechanism'], 1)[1].strip()
    return found


class Inconclusive(Exception):
    """The monitor could not decide (watchdog, nothing observed)."""


class Check:
    def __init__(self, pid, level, rule, technique='', assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(f'{pid}:{self.seed}')
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counters = {}
        self.violations = []      # (mechanism, description, replay)
        self.notes = []
        self.assumptions = list(assumptions)
        self.extra = {}
        self.known = load_known(pid)
        self.required = {}
        import threading
        self._lock = threading.Lock()

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- accounting
    def case(self, key, sample=None, nontrivial=True):
        with self._lock:
            self.evaluations += 1
            if nontrivial:
                digest = hashlib.sha1(repr(key).encode('utf-8', 'surrogatepass')).hexdigest()
                if digest not in self.keys:
                    self.keys.add(digest)
                    if sample is not None and len(self.samples) < 12:
                        self.samples.append(sample)

    def count(self, name, n=1):
        with self._lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, minimum=1):
        """The run is inconclusive unless counter `name` reaches `minimum`."""
        self.required[name] = minimum

    def violation(self, mechanism, description, replay=None):
        with self._lock:
            self.violations.append((mechanism, description, replay))
            n = sum(1 for v in self.violations if v[0] == mechanism)
        if n <= 3:
            print(f'-- {self.pid}: [{mechanism}] {description}'[:1500], flush=True)

    def inconclusive(self, why):
        with self._lock:
            self.notes.append(why)
        print(f'-- {self.pid}: inconclusive: {why}'[:800], flush=True)

    # -- verdict
    def finish(self):
        EVIDENCE.mkdir(exist_ok=True)
        for name, minimum in self.required.items():
            if self.counters.get(name, 0) < minimum:
                self.notes.append(f'monitor counter {name}={self.counters.get(name, 0)} < {minimum}')
        fresh, known = {}, {}
        for mech, desc, replay in self.violations:
            (known if mech in self.known else fresh).setdefault(mech, []).append((desc, replay))
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.keys),
            'rule': self.rule,
            'samples': self.samples or ['(none)'],
            'monitor_events': self.counters,
            'inconclusive': self.notes,
            'known_findings_seen': sorted(known),
            **self.extra,
        }
        (EVIDENCE / f'{self.pid}.json').write_text(json.dumps({
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': coverage, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': sum(len(v) for v in fresh.values()),
        }, indent=1, default=str) + '\n')
        print(f'{self.pid}: {self.evaluations} evaluations, {len(self.keys)} distinct, '
              f'{time.time() - self.t0:.1f}s, events {self.counters}')
        # Every listed finding is announced, whether or not this run's workload met it again.
        for mech, text in self.known.items():
            print(f'KNOWN-FINDING: property={self.pid} {mech} {text}')
        if fresh:
            n = 0
            for mech, items in fresh.items():
                n += 1
                path = EVIDENCE / 'replay' / f'{self.pid}-{n}.json'
                path.parent.mkdir(exist_ok=True)
                path.write_text(json.dumps({
                    'property': self.pid, 'mechanism': mech, 'seed': self.seed, 'tier': self.tier,
                    'cases': [{'what': d, 'replay': r} for d, r in items[:20]]}, indent=1, default=str) + '\n')
                print(f'VIOLATION property={self.pid} replay={path} {mech}: {items[0][0][:300]}')
            sys.stdout.flush()
            return 1
        if self.notes or not self.evaluations:
            print(f'INCONCLUSIVE property={self.pid}: {self.notes or "nothing evaluated"}')
            sys.stdout.flush()
            return 2
        sys.stdout.flush()
        return 0


def main(check, body):
    """Run `body(check)`, write evidence, exit."""
    from vlib import hs
    code = 2
    try:
        try:
            body(check)
        except Inconclusive as exc:
            check.inconclusive(str(exc))
        except Exception:
            traceback.print_exc()
            check.inconclusive('harness error: ' + traceback.format_exc().strip().splitlines()[-1])
        code = check.finish()
    finally:
        hs.cleanup_all()
    os._exit(code)
