"""Shared machinery: exploration bookkeeping, violations, replay, evidence.

A property module (``mc/props/<id>.py``) defines

    LEVEL, TITLE, RULE, ASSUMPTIONS
    def run(ctx): ...

and explores a *bounded, exhaustively enumerated* space of executions of the
real mmrazor code.  Everything it executes goes through ``ctx.case`` so that a
violation carries the exact case descriptor which reproduces it
(``./check P01 --replay FILE``).
"""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
MAX_REPORT = 8


class Violation(AssertionError):
    """Raised by an oracle: observed behaviour differs from the property."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Rejected(Exception):
    """The code under test refused an operation (used by drivers)."""


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=str)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def load_known(prop):
    """[(key, text)] of recorded (not repaired) findings of this property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('finding: '):
                continue
            head, _, text = line[len('finding: '):].partition(' :: ')
            fields = dict(f.split('=', 1) for f in head.split())
            if fields['property'] == prop:
                out.append((fields['key'], text))
    return out


class Ctx:

    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.replay = replay
        self.known = dict(load_known(prop))
        self.known_hit = {}
        self.violations = {}
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = {}
        self.scopes = {}
        self.caps = []
        self.t0 = time.time()
        self._in_case = None
        self._cur = None
        self.errors = []

    # ---- bookkeeping -------------------------------------------------
    def state(self, canon):
        """Count a distinct canonical state (within the current scope)."""
        h = hashlib.blake2b(
            repr((self._in_case, canon)).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n
        if self._in_case:
            self.scopes[self._in_case]['transitions'] += n

    def cap(self, text):
        if text not in self.caps:
            self.caps.append(text)

    # ---- cases -------------------------------------------------------
    @contextlib.contextmanager
    def case(self, scope, desc, key=None):
        """One complete execution.  ``desc`` reproduces it."""
        sc = self.scopes.setdefault(scope, dict(traces=0, transitions=0))
        if self.replay is not None and (
                self.replay['scope'] != scope
                or self.replay['case'] != jsonable(desc)):
            raise_skip()
        self._in_case = scope
        sc['traces'] += 1
        self.traces += 1
        if len(self.samples.setdefault(scope, [])) < 1 or \
                (sc['traces'] == 17 and len(self.samples[scope]) < 2):
            self.samples[scope].append(jsonable(desc))
        try:
            yield self
        except Skip:
            raise
        except Violation as e:
            self.violation(scope, desc, str(e), e.key or key)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa  (the code under test blew up)
            tb = traceback.format_exc(limit=-6)
            self.violation(scope, desc,
                           f'unexpected {type(e).__name__}: {e}\n{tb}', key)
        finally:
            self._in_case = None

    def cases(self, scope, descs, fn, key=None):
        """Run ``fn(desc)`` as one case for every descriptor."""
        for d in descs:
            if self.full:
                return
            self.one(scope, d, lambda: fn(d), key)

    def one(self, scope, desc, fn, key=None):
        if self.replay is not None and (
                self.replay['scope'] != scope
                or self.replay['case'] != jsonable(desc)):
            return
        with self.case(scope, desc, key):
            fn()

    @property
    def full(self):
        return len(self.violations) >= MAX_REPORT

    def violation(self, scope, desc, msg, key=None):
        key = key or f'{scope}'
        for k in (key, f'{key}/{json.dumps(jsonable(desc))}'):
            k = k.replace(' ', '')
            if k in self.known:
                self.known_hit.setdefault(k, 0)
                self.known_hit[k] += 1
                return
        if key in self.violations:
            self.violations[key]['count'] += 1
            return
        self.violations[key] = dict(
            property=self.prop, scope=scope, case=jsonable(desc), message=msg,
            key=key, count=1)

    # ---- parallel ----------------------------------------------------
    def parallel(self, scope, descs, fn, key=None, workers=8, chunk=None):
        """As ``cases`` but sharded over forked workers (deterministic set)."""
        descs = list(descs)
        if self.replay is not None:
            return self.cases(scope, descs, fn, key)
        if len(descs) < 2 * workers or workers == 1:
            return self.cases(scope, descs, fn, key)
        import multiprocessing as mp
        mpc = mp.get_context('fork')
        pipes = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(workers):
            r, s = mpc.Pipe(False)
            p = mpc.Process(
                target=_worker, args=(self, scope, descs[w::workers], fn, key,
                                      s))
            p.start()
            s.close()
            pipes.append((p, r))
        for p, r in pipes:
            try:
                res = r.recv()
            except EOFError:
                res = dict(error=f'worker of scope {scope} died')
            p.join()
            if 'error' in res:
                self.errors.append(res['error'])
                continue
            self.states |= res['states']
            self.transitions += res['transitions']
            self.traces += res['traces']
            for k, v in res['known_hit'].items():
                self.known_hit[k] = self.known_hit.get(k, 0) + v
            for k, v in res['violations'].items():
                if k in self.violations:
                    self.violations[k]['count'] += v['count']
                else:
                    self.violations[k] = v
            for sname, sc in res['scopes'].items():
                tgt = self.scopes.setdefault(
                    sname, dict(traces=0, transitions=0))
                for kk in sc:
                    tgt[kk] += sc[kk]
            for sname, ss in res['samples'].items():
                cur = self.samples.setdefault(sname, [])
                cur.extend(ss[:max(0, 2 - len(cur))])
            for c in res['caps']:
                self.cap(c)

    # ---- the end -----------------------------------------------------
    def finish(self, mod):
        wall = time.time() - self.t0
        if self.errors:
            # a worker vanished: the exploration is incomplete, which must
            # not be reported as "held".
            self.violation('harness', dict(), '; '.join(self.errors),
                           'harness-incomplete')
        for k, n in sorted(self.known_hit.items()):
            print(f'KNOWN-FINDING: property={self.prop} {self.known[k]} '
                  f'[key={k}, {n} case(s)]')
        rdir = os.path.join(ROOT, 'replays', self.prop)
        for i, (k, v) in enumerate(sorted(self.violations.items())):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{i}.json')
            json.dump(v, open(path, 'w'), indent=1)
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f"  [{v['key']}] x{v['count']} case={v['case']}\n"
                  f"  {v['message'][:1500]}")
        if self.replay is None:
            cov = dict(
                states=len(self.states),
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=[
                    dict(scope=s, case=c) for s, cs in self.samples.items()
                    for c in cs
                ][:12],
                scopes=self.scopes,
                rule=mod.RULE,
                exhaustive=not self.caps,
                caps=self.caps,
                known_findings_hit=self.known_hit)
            ev = dict(
                property=self.prop, tier=self.tier, seed=self.seed,
                level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
                assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                wall_s=round(wall, 2), violations=len(self.violations))
            os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
            with open(os.path.join(ROOT, 'evidence', f'{self.prop}.json'),
                      'w') as f:
                json.dump(ev, f, indent=1)
        print(f'{self.prop} [{self.tier}] states={len(self.states)} '
              f'transitions={self.transitions} executions={self.traces} '
              f'violations={len(self.violations)} wall={wall:.1f}s')
        return 1 if self.violations else 0


class Skip(BaseException):
    pass


def raise_skip():
    raise Skip()


def _worker(ctx, scope, descs, fn, key, pipe):
    try:
        ctx.states, ctx.transitions, ctx.traces = set(), 0, 0
        ctx.known_hit, ctx.violations, ctx.samples = {}, {}, {}
        ctx.scopes, ctx.caps = {}, []
        ctx.cases(scope, descs, fn, key)
        pipe.send(
            dict(states=ctx.states, transitions=ctx.transitions,
                 traces=ctx.traces, known_hit=ctx.known_hit,
                 violations=ctx.violations, samples=ctx.samples,
                 scopes=ctx.scopes, caps=ctx.caps))
    except BaseException as e:  # noqa
        pipe.send(dict(error=f'{type(e).__name__}: {e} '
                       f'{traceback.format_exc(limit=-4)}'))
    finally:
        pipe.close()
        sys.stdout.flush()
        os._exit(0)
