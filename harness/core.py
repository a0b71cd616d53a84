"""Shared machinery: running TLC on the specifications in /verif/spec, replaying
the behaviours it emits into the code in /repo, validating recorded traces
against the specifications, reporting violations, writing evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('MENPOFIT_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class MachineryError(Exception):
    pass


def load_findings(prop):
    """(keys of recorded findings of this property -> text)."""
    out = {}
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


class TlcRun(object):
    def __init__(self, states, distinct, cases, out, coverage):
        self.states = states
        self.distinct = distinct
        self.cases = cases
        self.out = out
        self.coverage = coverage


def _tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(_tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(_tla(x) for x in v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, _tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


class Ctx(object):
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.evals = 0
        self.samples = []
        self.sample_every = {}
        self.groups = {}
        self.violations = []
        self.nviol = 0
        self.known = load_findings(prop)
        self.known_hit = {}
        self.tlc_runs = []
        self.extra = {}
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, invariants=(), properties=(),
            spec='Spec', constraint=None, env=None, workers=4, timeout=800,
            simulate=None, postcondition=None, view=None, expect_cases=True,
            action_constraint=None):
        """Run TLC on spec/<module>.tla; returns the emitted cases."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                # CSVWrite is not synchronised between TLC's workers: they
                # append to different files
                text = open(os.path.join(SPEC, f)).read()
                if workers > 1:
                    text = text.replace(
                        ', IOEnv.OUT)', ', IOEnv.OUT \\o ToString(RandomElement(0..255)))')
                open(os.path.join(d, f), 'w').write(text)
        # constants: simple ones go through a generated MC module
        consts = constants or {}
        mc = 'MC_' + module
        body = ['---- MODULE %s ----' % mc, 'EXTENDS %s' % module]
        cfg = []
        for k, v in consts.items():
            body.append('const_%s == %s' % (k, v if isinstance(v, Raw) else _tla(v)))
            cfg.append('CONSTANT %s <- const_%s' % (k, k))
        body.append('====')
        open(os.path.join(d, mc + '.tla'), 'w').write('\n'.join(body) + '\n')
        cfg.append('SPECIFICATION %s' % spec)
        for i in invariants:
            cfg.append('INVARIANT %s' % i)
        for i in properties:
            cfg.append('PROPERTY %s' % i)
        if constraint:
            cfg.append('CONSTRAINT %s' % constraint)
        if action_constraint:
            cfg.append('ACTION_CONSTRAINT %s' % action_constraint)
        if view:
            cfg.append('VIEW %s' % view)
        if postcondition:
            cfg.append('POSTCONDITION %s' % postcondition)
        cfg.append('CHECK_DEADLOCK FALSE')
        open(os.path.join(d, mc + '.cfg'), 'w').write('\n'.join(cfg) + '\n')
        out = os.path.join(d, 'cases.txt')
        e = dict(os.environ)
        e['OUT'] = out
        e.update(env or {})
        cmd = ['java', '-Xmx6g', '-Xss16m', '-XX:+UseParallelGC', '-cp', JAR + ':' + CM,
               'tlc2.TLC', '-workers', str(workers), '-metadir',
               os.path.join(d, 'meta'), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0], '-depth',
                    str(simulate[1]), '-seed', str(self.seed)]
        cmd += ['-config', mc + '.cfg', mc + '.tla']
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timeout on %s' % module)
        o = p.stdout
        if p.returncode != 0 or 'Error:' in o:
            raise MachineryError('TLC failed on %s (exit %d):\n%s' % (
                module, p.returncode, o[-6000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct', o)
        if m:
            st, di = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r'(\d+) states checked', o) or \
                re.search(r'Progress.*?(\d+) states', o)
            st = di = int(m.group(1)) if m else 0
        cases = []
        try:
            for name in sorted(os.listdir(d)):
                if not name.startswith('cases.txt'):
                    continue
                with open(os.path.join(d, name)) as f:
                    for line in f:
                        x = json.loads(line)
                        if isinstance(x, str):
                            x = json.loads(x)
                        cases.append((line, x))
        except ValueError:
            # two workers wrote to one file at the same time all the same
            if workers == 1:
                raise MachineryError('unreadable cases of %s' % module)
            shutil.rmtree(d, ignore_errors=True)
            return self.tlc(module, constants, invariants, properties, spec,
                            constraint, env, 1, timeout, simulate,
                            postcondition, view, expect_cases, action_constraint)
        cases.sort(key=lambda p: p[0])      # the order of the files is random
        cases = [x for _, x in cases]
        if expect_cases and not cases:
            raise MachineryError('TLC emitted no behaviours for %s' % module)
        self.states += di
        self.transitions += st
        self.tlc_runs.append(dict(module=module, states=di, transitions=st,
                                  emitted=len(cases),
                                  wall_s=round(time.time() - t, 2)))
        shutil.rmtree(d, ignore_errors=True)
        return TlcRun(st, di, cases, o, None)

    def validate(self, module, traces, constants=None, chunk=None, **kw):
        """Trace validation: `traces` is a list of records; the trace module
        consumes them one per step and emits one verdict record per trace
        ({i, bad: [clauses]}).  Returns the verdicts (all of them)."""
        if not traces:
            raise MachineryError('no traces to validate for ' + module)
        path = os.path.join(self.scratch, 'trace-%d.ndjson' % len(self.tlc_runs))
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        r = self.tlc(module, constants=constants, env={'TRACE': path}, **kw)
        if len(r.cases) != len(traces):
            raise MachineryError('%s: %d verdicts for %d traces' % (
                module, len(r.cases), len(traces)))
        v = {}
        for c in r.cases:
            v[c['i']] = c
        return [v[i + 1] for i in range(len(traces))]

    # ---------------------------------------------------------- verdicts
    def sample(self, group, case, limit=2):
        n = self.sample_every.get(group, 0)
        if n < limit:
            self.sample_every[group] = n + 1
            self.samples.append({'group': group, 'case': case})

    def count(self, group, n=1):
        self.groups[group] = self.groups.get(group, 0) + n

    def fail(self, key, case, detail):
        """Report one violated clause.  key identifies clause + input class."""
        if key in self.known:
            self.known_hit.setdefault(key, detail)
            return
        self.nviol += 1
        if len(self.violations) < 20:
            d = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, key=key, case=case,
                               detail=detail, seed=self.seed, tier=self.tier),
                          f, indent=1, default=str)
            self.violations.append((key, path))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  clause %s: %s' % (key, str(detail)[:600]))
            sys.stdout.flush()

    def replay(self, group, cases, fn, key=None, stop_after=60, sample=2):
        """Replay spec-generated cases into the code.  fn(case) yields
        (clause, detail) for each violated clause; an exception escaping the
        code under test is a violated clause as well."""
        bad = 0
        for c in cases:
            self.replayed += 1
            self.count(group)
            self.sample(group, c, sample)
            try:
                for clause, detail in (fn(c) or ()):
                    self.fail('%s/%s' % (group, clause), c, detail)
                    bad += 1
            except MachineryError:
                raise
            except Exception as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                where = [t for t in tb if '/menpofit/' in t.filename]
                loc = ('%s:%s' % (os.path.basename(where[-1].filename),
                                  where[-1].name)) if where else 'harness'
                self.fail('%s/raises-%s' % (group, type(e).__name__), c,
                          '%s: %s (in %s)' % (type(e).__name__, e, loc) +
                          '\n' + ''.join(traceback.format_exc()[-1500:]))
                bad += 1
            if bad >= stop_after:
                break

    def finish(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.replayed,
                   groups=self.groups, tlc_runs=self.tlc_runs,
                   samples=self.samples[:40])
        if self.level in ('exploration', 'fault_enumeration'):
            cov['evaluations'] = self.replayed
            cov['distinct_nontrivial'] = self.extra.get('distinct_nontrivial', self.replayed)
            cov['rule'] = self.extra.get('rule', '')
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=self.nviol)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, v in self.known.items():
            if k in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, v))
        shutil.rmtree(self.scratch, ignore_errors=True)
        print('%s %s: %d states, %d transitions, %d behaviours/traces checked '
              'against the code, %d violations, %.1f s' % (
                  self.prop, self.tier, self.states, self.transitions,
                  self.replayed, self.nviol, time.time() - self.t0))
        return 1 if self.nviol else 0


class Raw(str):
    """A constant given as TLA+ source."""


def heard(f):
    """What f() returns and what it prints."""
    import contextlib
    import io
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r = f()
    return r, o.getvalue()
