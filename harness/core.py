"""Runner shared by every check.

A check module defines sub-checks.  A sub-check turns a JSON case into a verdict:
  returns True   - property held, case was non-trivial
  returns False  - property held, case was trivial (or vacuous)
  raises Violation(message, sig) - property broken.
Cases are either enumerated (finite spaces) or generated by Hypothesis, which also shrinks
failing ones.  The (shrunk) failing case is written to replays/ and can be re-run with
  run.py <ID> --replay <file>
"""
import hashlib
import json
import os
import random
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
CASE_TIMEOUT = 120


class Violation(Exception):
    def __init__(self, message, sig=None):
        super().__init__(message)
        self.sig = sig


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Sub:
    def __init__(self, name, fn, strategy=None, cases=None, quick=300, thorough=None,
                 doc='', shrink=True):
        self.name, self.fn, self.strategy, self.cases = name, fn, strategy, cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.doc = doc or (fn.__doc__ or '').strip().split('\n')[0]


class Registry:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subs = []

    def given(self, strategy, quick=300, thorough=None, name=None):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, fn, strategy=strategy, quick=quick, thorough=thorough))
            return fn
        return deco

    def enum(self, cases, name=None):
        """cases: callable(tier) -> iterable of JSON cases"""
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, fn, cases=cases))
            return fn
        return deco


def canon(case):
    return json.dumps(case, sort_keys=True)


def from_repo(exc):
    """whether the code under test raised this by itself (not the harness, and not a callback of the harness)"""
    files = [f.filename for f in traceback.extract_tb(exc.__traceback__)]
    last = max([i for i, f in enumerate(files) if f.startswith(VERIF + os.sep)], default=-1)
    return getattr(exc, 'from_repo', False) or any(f.startswith(REPO + os.sep) for f in files[last + 1:])


UNREADABLE = (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError, struct.error, EOFError, StopIteration)


def describe(exc):
    return getattr(exc, 'text', None) or repr(exc)


class Run:
    def __init__(self, reg):
        self.reg = reg
        self.evaluations = 0
        self.seen = set()
        self.distinct = 0
        self.samples = []
        self.known_hits = {}
        self.labels = {}
        self.per_sub = {}
        self.violations = []
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            kf = json.load(f)
        self.known = [k for k in kf['known'] if k['property'] == reg.pid]
        self.known_sigs = {k['sig'] for k in self.known}

    def evaluate(self, sub, case, count=True):
        case = json.loads(json.dumps(case))
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        try:
            nontrivial = sub.fn(case)
        except Hang:
            raise Violation('no answer after %d s' % CASE_TIMEOUT, 'hang') from None
        except Exception as exc:
            if from_repo(exc):
                raise Violation('unexpected %s' % describe(exc)) from None
            # what the code gave could not even be read (a missing key, a value of another type):
            # this never happens on what the harness expects
            if isinstance(exc, UNREADABLE) and not isinstance(exc, Violation):
                raise Violation('unreadable result: %r at %s' % (exc, traceback.extract_tb(exc.__traceback__)[-1][1:3])) from None
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if count:
            st = self.per_sub.setdefault(sub.name, {'evaluations': 0, 'distinct_nontrivial': 0})
            n = 1
            if isinstance(nontrivial, tuple):       # a batch: (evaluated, non-trivial), the members are distinct
                n, nontrivial = nontrivial
            self.evaluations += n
            st['evaluations'] += n
            if nontrivial:
                h = hashlib.blake2b((sub.name + canon(case)).encode(), digest_size=10).digest()
                if h not in self.seen:
                    self.seen.add(h)
                    self.distinct += int(nontrivial)
                    st['distinct_nontrivial'] += int(nontrivial)
                    n = st['accepted'] = st.get('accepted', 0) + 1
                    if n in (2, 20, 200) and len(canon(case)) < 3000:
                        self.samples.append({'sub': sub.name, 'case': case})
        return nontrivial

    def guarded(self, sub, case):
        """Evaluate; swallow violations that are listed as known findings."""
        try:
            return self.evaluate(sub, case)
        except Violation as v:
            if sub.cases is not None and isinstance(case, list) and len(case) > 1 and isinstance(case[0], (list, dict)):
                # a batch: find the member(s) responsible
                reproduced = False
                for member in case:
                    try:
                        self.evaluate(sub, [member], count=False)
                    except Violation as mv:
                        reproduced = True
                        if mv.sig is None or mv.sig not in self.known_sigs:
                            mv.member = [member]
                            raise mv
                        self.known_hits[sub.name, mv.sig] = self.known_hits.get((sub.name, mv.sig), 0) + 1
                if reproduced:
                    self.evaluations += len(case)
                    return False
            key = (sub.name, v.sig)
            if v.sig is not None and v.sig in self.known_sigs:
                self.known_hits[key] = self.known_hits.get(key, 0) + 1
                self.evaluations += 1
                return False
            raise

    def run_sub(self, sub):
        last = {}

        def body(case):
            try:
                self.guarded(sub, case)
            except Violation as v:
                last['case'], last['v'] = case, v
                raise

        if sub.cases is not None:
            for case in sub.cases(TIER):
                try:
                    body(case)
                except Violation as v:
                    self.report(sub, getattr(v, 'member', case), v)
                    return
            return
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        n = sub.quick if TIER == 'quick' else sub.thorough
        s = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                     phases=(Phase.generate, Phase.shrink),
                     report_multiple_bugs=False,
                     suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                            HealthCheck.large_base_example])
        sseed = int.from_bytes(hashlib.sha256(('%d/%s/%s' % (SEED, self.reg.pid, sub.name)).encode()).digest()[:6], 'big')
        test = hypothesis.seed(sseed)(s(given(sub.strategy)(body)))
        try:
            test()
        except Violation as v:
            self.report(sub, last['case'], last['v'])
        except Hang:
            raise
        except hypothesis.errors.Flaky:
            # non deterministic under test: report what was seen if it was a violation
            if 'v' in last:
                self.report(sub, last['case'], last['v'])
            else:
                raise

    def report(self, sub, case, v):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        h = hashlib.sha256((sub.name + canon(case)).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (self.reg.pid, sub.name, h))
        with open(path, 'w') as f:
            json.dump({'property': self.reg.pid, 'sub': sub.name, 'case': json.loads(json.dumps(case)),
                       'message': str(v), 'sig': v.sig, 'seed': SEED}, f, indent=1)
        self.violations.append(path)
        print('%s/%s: %s' % (self.reg.pid, sub.name, v))
        print('  case: %s' % canon(case)[:1500])
        if v.sig:
            print('  sig: %s' % v.sig)
        print('VIOLATION property=%s replay=%s' % (self.reg.pid, path))
        sys.stdout.flush()

    def check_known(self):
        subs = {s.name: s for s in self.reg.subs}
        for k in self.known:
            try:
                self.evaluate(subs[k['sub']], k['case'], count=False)
            except Violation as v:
                if v.sig == k['sig']:
                    print('KNOWN-FINDING: property=%s %s' % (self.reg.pid, k['what']))
                    continue
                self.report(subs[k['sub']], k['case'], v)
                continue
            print('note: listed finding no longer fails: %s' % k['what'])

    def main(self, only=None):
        t0 = time.time()
        self.check_known()
        for sub in self.reg.subs:
            if only and sub.name not in only:
                continue
            ts = time.time()
            self.run_sub(sub)
            if os.environ.get('VERIF_VERBOSE'):
                print('  %-40s %6.1fs %s' % (sub.name, time.time() - ts, self.per_sub.get(sub.name)))
        for st in self.per_sub.values():
            st.pop('accepted', None)
        ev = {
            'property': self.reg.pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': self.distinct,
                'rule': self.reg.rule,
                'samples': self.samples[:40] or [{'note': 'no non-trivial case'}],
                'sub_checks': self.per_sub,
                'excluded_as_known_finding': sum(self.known_hits.values()),
            },
            'assumptions': self.reg.assumptions,
            'wall_s': round(time.time() - t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not only:
            with open(os.path.join(VERIF, 'evidence', self.reg.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s: %d cases, %d distinct non-trivial, %d violation(s), %.1fs'
              % (self.reg.pid, self.evaluations, self.distinct, len(self.violations), time.time() - t0))
        return 1 if self.violations else 0


def setup_path():
    sys.dont_write_bytecode = True
    # never read a stale cached module of the tree under test
    sys.pycache_prefix = os.path.join(VERIF, '.no-pycache-here')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.path[:] = [p for p in sys.path if p not in ('', os.getcwd())] if os.getcwd() != REPO else sys.path
    if VERIF not in sys.path:
        sys.path.append(VERIF)


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    args = ap.parse_args(argv)
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    setup_path()
    sys.setrecursionlimit(3000)
    random.seed(SEED)
    mod = importlib.import_module('harness.checks.' + args.pid.lower())
    run = Run(mod.REG)
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        sub = {s.name: s for s in mod.REG.subs}[r['sub']]
        try:
            print('held, non-trivial=%s' % run.evaluate(sub, r['case']))
            return 0
        except Violation as v:
            print('%s/%s: %s' % (args.pid, sub.name, v))
            print('VIOLATION property=%s replay=%s' % (args.pid, args.replay))
            return 1
    return run.main(args.only)
