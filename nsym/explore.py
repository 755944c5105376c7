"""Exploration of one harness case: depth-first over path prefixes, solver-decided
assertions, native replay of every candidate, validation of path witnesses."""
import importlib
import json
import os
import subprocess
import sys
import time
import z3

from . import core, ctx, loader, models, runtime, seqs, stubs
from .core import (Engine, PathInfeasible, PathIncomplete, PathStop, OutOfBudget, EngineSignal, SymBool, Sym, is_sym,
                   mk_int, mk_bool, b_and, b_or, b_not, b_term, is_z3)

# a fault of the solver interface must never be swallowed by the code under test
z3.Z3Exception.__bases__ = (BaseException,)

VENV_PY = '/opt/venv/bin/python'


class Candidate(Exception):
    pass


class CheckViolated(EngineSignal):
    def __init__(self, msg):
        self.msg = msg


class SymCtx:
    symbolic = True

    def __init__(self, eng, job):
        self.e = eng
        self.job = job
        self.checks = 0
        self.labels = set()

    # -- inputs
    def _reg(self, name, kind, data):
        if name in self.e.inputs:
            raise RuntimeError('duplicate input %s' % name)
        self.e.inputs[name] = (kind, data)

    def int(self, name, lo, hi):
        if lo == hi:
            self._reg(name, 'const', str(lo))
            return lo
        w = core.width_for(lo, hi)
        if lo >= 0:
            v = z3.BitVec(name, w - 1)
            t = z3.ZeroExt(1, v)
            if lo > 0:
                self.e.add(z3.UGE(v, lo))
            if hi < (1 << (w - 1)) - 1:
                self.e.add(z3.ULE(v, hi))
        else:
            t = v = z3.BitVec(name, w)
            self.e.add(z3.And(v >= lo, v <= hi))
        self._reg(name, 'int', (t, lo, hi))
        return mk_int(t, lo, hi)

    def bytes(self, name, n):
        vs = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
        self._reg(name, 'bytes', vs)
        return seqs.mk_bytes(vs)

    def bytearray(self, name, n):
        return seqs.SymByteArray(list(seqs.els_of(self.bytes(name, n))))

    def str(self, name, n, kind='unicode'):
        vs = [z3.BitVec('%s[%d]' % (name, i), seqs.CW) for i in range(n)]
        for v in vs:
            if kind == 'ascii':
                self.e.add(z3.ULT(v, 128))
            elif kind == 'latin':
                self.e.add(z3.ULT(v, 256))
            elif kind == 'hex':
                self.e.add(z3.Or(z3.And(z3.UGE(v, 48), z3.ULE(v, 57)), z3.And(z3.UGE(v, 97), z3.ULE(v, 102))))
            elif kind == 'any':
                self.e.add(z3.ULE(v, 0x10ffff))
            elif kind == 'nfc':
                # characters that normalisation never changes and no character beside them composes with
                self.e.add(z3.And(z3.Or(*[z3.And(z3.UGE(v, a), z3.ULE(v, b)) for a, b in runtime.nfc_inert()]),
                                  z3.Or(z3.ULT(v, 0xd800), z3.UGT(v, 0xdfff))))
            else:
                self.e.add(z3.And(z3.ULE(v, 0x10ffff), z3.Or(z3.ULT(v, 0xd800), z3.UGT(v, 0xdfff))))
        self._reg(name, 'str', vs)
        return seqs.mk_str(vs)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, 'bool', v)
        return SymBool(v)

    def f64(self, name):
        v = z3.BitVec(name, 64)
        self._reg(name, 'f64', v)
        return models.SymFloat(bits=v)

    def choice(self, name, values):
        n = len(values)
        if n == 1:
            self._reg(name, 'const', '0')
            return values[0]
        w = n.bit_length() + 1
        v = z3.BitVec(name, w)
        self.e.add(z3.And(v >= 0, v < n))
        self._reg(name, 'int', (v, 0, n - 1))
        return values[self.e.concretize(v, cap=5000)]

    # -- assumptions and assertions
    def assume(self, c):
        if type(c) is SymBool:
            t = z3.simplify(c.t)
            self.e.add(t)
            r = self.e.raw_check()
            if r == z3.unsat:
                raise PathInfeasible()
            return
        if not runtime.truth(c):
            raise PathInfeasible()

    def check(self, c, msg, known=None):
        self.checks += 1
        e = self.e
        e.stats['assertions'] += 1
        if type(c) is not SymBool:
            c = bool(runtime.truth(c)) if not isinstance(c, bool) else c
            ct = z3.BoolVal(c)
        else:
            ct = z3.simplify(c.t)
        if z3.is_true(ct):
            e.stats['proved_by_simplifier'] += 1
            return
        kt = None
        if known is not None:
            kt = z3.simplify(b_term(known[1]))
        neg = z3.Not(ct)
        if kt is not None:
            if known[0] not in self.job.known and not z3.is_false(kt):
                r = self.job.solve(e, [neg, kt])
                if r[0] == 'sat':
                    self.job.known_witness(e, [neg, kt], known[0], msg)
            neg = z3.And(neg, z3.Not(kt))
        self.job.assertion(e, neg, msg)
        e.add(z3.Or(ct, kt) if kt is not None else ct)

    def fail(self, msg):
        raise CheckViolated(msg)

    def reach(self, label):
        self.labels.add(label)

    def observe(self, name, v):
        self.e.observations.append((name, v))

    def abstract(self):
        self.e.state['abstract'] = True

    def injective(self, *names):
        self.e.state['injective'] = tuple(self.e.state.get('injective', ())) + names

    # -- helpers
    def attempt(self, f):
        try:
            return True, f()
        except Exception as ex:
            return False, ex

    def same(self, a, b):
        return runtime.cmp('==', a, b)

    def all(self, cs):
        return b_and(*[c if isinstance(c, (bool, SymBool)) else runtime.truth(c) for c in cs])

    def any(self, cs):
        return b_or(*[c if isinstance(c, (bool, SymBool)) else runtime.truth(c) for c in cs])

    def implies(self, a, b):
        return b_or(b_not(a), b)

    def ite(self, c, a, b):
        return core.int_ite(c, a, b)

    def concrete(self, x):
        return runtime.to_native(x)


# -------------------------------------------------------------------------
def ev(model, t):
    return model.eval(t, model_completion=True)


def bvlong(model, t):
    v = ev(model, t)
    if z3.is_bv_value(v):
        return v.as_long()
    return 0


def concrete_inputs(eng, model):
    out = {}
    for name, (kind, d) in eng.inputs.items():
        if kind == 'const':
            out[name] = d
        elif kind == 'int':
            t = d[0]
            out[name] = str(ev(model, t).as_signed_long())
        elif kind == 'bytes':
            out[name] = bytes(bvlong(model, t) for t in d).hex()
        elif kind == 'str':
            out[name] = [bvlong(model, t) for t in d]
        elif kind == 'bool':
            out[name] = bool(z3.is_true(ev(model, d)))
        elif kind == 'f64':
            out[name] = str(bvlong(model, d))
    return out


def sym_obs(model, v, d=0):
    """value under a model, in ctx.enc_obs form; '?' where not determined"""
    if isinstance(v, Sym):
        if type(v) is SymBool:
            return repr(bool(z3.is_true(ev(model, v.t))))
        if core.is_symint(v):
            return 'i%d' % ev(model, v.bv).as_signed_long()
        if isinstance(v, seqs.SymSeqB):
            return 'b' + bytes(x if isinstance(x, int) else bvlong(model, x) for x in v.els).hex()
        if type(v) is seqs.SymStr or (type(v) is seqs.LazyStr and v._chs is not None):
            return 's' + ','.join('%x' % (x if isinstance(x, int) else bvlong(model, x)) for x in v.chs)
        return '?'
    if isinstance(v, (list, tuple)) and d < 5:
        return '[' + ';'.join(sym_obs(model, x, d + 1) for x in v) + ']'
    return ctx.enc_obs(v)


class Native:
    """client of one replay server"""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', NSYM_REPO=loader.REPO)
        self.p = subprocess.Popen([VENV_PY, '-B', os.path.join(loader.VERIF, 'nsym', 'native.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, text=True)

    def run(self, module, func, params, inputs, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(dict(module=module, func=func, params=params, inputs=inputs, timeout=timeout)) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as ex:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
            return {'status': 'error', 'msg': 'replay server: %r' % ex}

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


NATIVE = Native()


class Job:
    def __init__(self, case, cfg):
        self.case = case            # dict(module, func, params, name)
        self.cfg = cfg
        self.violations = []
        self.unreproduced = []
        self.known = {}
        self.validated = 0
        self.mismatches = []
        self.samples = []
        self.labels = set()
        self.checks = 0
        self.native_runs = 0

    # -- solving
    def solve(self, e, extra):
        """('sat', model) | ('unsat',) | ('unknown',)"""
        if e.model_ is not None and all(z3.is_true(e.model_.eval(x, model_completion=True)) for x in extra):
            return ('sat', e.model_)
        r = e.raw_check(*extra)
        if r == z3.sat:
            return ('sat', e.last_model())
        if r == z3.unsat:
            return ('unsat',)
        r = self.second_solver(e, extra)
        return r

    def second_solver(self, e, extra):
        """bit-blasting tactic, then cvc5, on a query z3's default gave up on"""
        t0 = time.time()
        for tac in (z3.Then('simplify', 'solve-eqs', 'bit-blast', 'sat'), z3.Then('simplify', 'qfbv')):
            try:
                s = tac.solver()
                s.set('timeout', int(self.cfg.get('hard_timeout_ms', 60000)))
                s.add(*e.pc)
                s.add(*extra)
                r = s.check()
                e.stats['solver_checks'] += 1
                if r == z3.unsat:
                    e.stats['solver_time'] += time.time() - t0
                    return ('unsat',)
                m = s.model() if r == z3.sat else None
                if m is not None and e.confirmed(m, extra):
                    e.stats['solver_time'] += time.time() - t0
                    return ('sat', m)
            except z3.Z3Exception:
                pass
        e.stats['solver_time'] += time.time() - t0
        return ('unknown',)

    def assertion(self, e, neg, msg):
        r = self.solve(e, [neg])
        if r[0] == 'unsat':
            e.stats['proved_by_solver'] += 1
            return
        if r[0] == 'unknown':
            e.stats['unknown'] += 1
            self.note_incomplete(e, 'solver gave up on assertion: %s' % msg[:80])
            self.try_path_inputs(e)
            return
        self.candidate(e, [neg], msg, r[1])

    def replay(self, inputs, timeout=None):
        self.native_runs += 1
        c = self.case
        return NATIVE.run(c['module'], c['func'], c['params'], inputs, timeout or self.cfg.get('replay_timeout', 20))

    def bad(self, r):
        return r['status'] in ('violation', 'hang', 'crash')

    def describe(self, r, msg):
        if r['status'] == 'hang':
            return 'does not terminate (%s)' % msg
        if r['status'] == 'crash':
            return 'process crashed (%s)' % msg
        return r.get('msg', msg)

    def add_violation(self, inputs, r, msg):
        self.violations.append(dict(inputs=inputs, msg=self.describe(r, msg), engine_msg=msg))

    def refine(self, e, model):
        """pin every uninterpreted application to the real function at the
        arguments of this model; True when something new was learnt"""
        new = False
        for f, args, t, real in e.state.get('apps', ()):
            vals = [ev(model, a).as_long() for a in args]
            key = (f.name(), tuple(vals))
            if key in self.pinned:
                continue
            self.pinned.add(key)
            try:
                out = real(*vals)
            except EngineSignal:
                raise
            except Exception:
                continue
            lhs = f(*[z3.BitVecVal(v, a.size()) for v, a in zip(vals, args)])
            if z3.is_bool(t):
                e.solver.add(lhs == z3.BoolVal(bool(out)))
            else:
                e.solver.add(lhs == z3.BitVecVal(out, t.size()))
            new = True
        for k, rec in list(e.state.items()):
            if not (isinstance(k, tuple) and k[0] == 'uf'):
                continue
            name, n = k[1], k[2]
            for a, r in rec['sym']:
                v = ev(model, a).as_long()
                key = (name, n, v)
                if key in self.pinned:
                    continue
                self.pinned.add(key)
                try:
                    out = rec['real'](v.to_bytes(n, 'big'))
                except Exception:
                    continue
                f = e.uf(name + '_%d' % n, z3.BitVecSort(8 * n), z3.BitVecSort(8 * len(out)))
                e.solver.add(f(z3.BitVecVal(v, 8 * n)) == z3.BitVecVal(int.from_bytes(out, 'big'), 8 * len(out)))
                new = True
        e.model_ = None
        return new

    def hinted(self, e, extra, model):
        """after learning facts about the contracts, prefer a model that keeps the arguments of the hash
        functions and uses a text that really decodes to the wanted bytes"""
        if not e.state.get('hints'):
            return None
        lits = []
        for k, rec in list(e.state.items()):
            if isinstance(k, tuple) and k[0] == 'uf':
                lits += [a == ev(model, a) for a, r in rec['sym']]
        for t, arg, inverse in e.state['hints']:
            v = inverse(ev(model, t).as_long())
            if v is not None:
                lits.append(arg == v)
        keep = []
        ok = None
        for l in lits:
            if e.raw_check(*extra, *keep, l) == z3.sat:
                keep.append(l)
                ok = z3.sat
            else:
                ok = None
        if not keep:
            return None
        return ok or e.raw_check(*extra, *keep)

    def candidate(self, e, extra, msg, model):
        """replay a counterexample; refine the contracts until it reproduces or is refuted"""
        self.pinned = set()
        tries = 0
        e.solver.push()
        last = None
        seen = []
        try:
            while True:
                inputs = concrete_inputs(e, model)
                r = self.replay(inputs)
                if self.bad(r):
                    self.add_violation(inputs, r, msg)
                    raise CheckViolatedDone()
                last = (inputs, r)
                tries += 1
                if tries >= self.cfg.get('max_refine', 24):
                    break
                learnt = self.refine(e, model) if e.approx else False
                if not learnt:
                    # ask for a different witness: block this one
                    lits = []
                    for name, (kind, d) in e.inputs.items():
                        ts = [d[0]] if kind == 'int' else d if kind in ('bytes', 'str') else [d] if kind in ('bool', 'f64') else []
                        for t in ts:
                            lits.append(t != ev(model, t))
                    if not lits:
                        break
                    e.solver.add(z3.Or(*lits))
                s = self.hinted(e, extra, model) if learnt else None
                if s is None:
                    s = e.raw_check(*extra)
                if s == z3.unsat:
                    if e.approx and learnt is not None and tries and not self.blocked(seen, learnt):
                        e.stats['proved_by_solver'] += 1
                        return
                    break
                seen.append(learnt)
                if s != z3.sat:
                    break
                model = e.last_model()
        finally:
            e.solver.pop()
            e.model_ = None
        if os.environ.get('NSYM_DEBUG'):
            with open('/tmp/unrep.%d' % os.getpid(), 'a') as fh:
                fh.write('%s %s\ntrace %s\n%s\n%s\n\n' % (msg, last[0], e.trace, e.inputs, '\n'.join(map(str, e.pc))))
        self.unreproduced.append(dict(inputs=last[0], msg=msg, native=last[1], tries=tries))

    @staticmethod
    def blocked(seen, learnt):
        """True when some witness was blocked without being refuted"""
        return (not learnt) or any(not x for x in seen)

    def known_witness(self, e, extra, kid, msg):
        r = self.solve(e, extra)
        model = r[1]
        inputs = concrete_inputs(e, model)
        n = self.replay(inputs)
        if kid in n.get('known', {}):
            self.known[kid] = dict(inputs=inputs, msg=n['known'][kid])
        elif self.bad(n):
            self.add_violation(inputs, n, msg)

    def note_incomplete(self, e, why):
        e.incomplete[why] = e.incomplete.get(why, 0) + 1

    def try_path_inputs(self, e, timeout=None):
        """the path cannot be decided symbolically: run its witness concretely"""
        try:
            e.solver.set('timeout', 5000)
            m = e.model()
        except EngineSignal:
            return
        inputs = concrete_inputs(e, m)
        r = self.replay(inputs, timeout)
        if self.bad(r):
            self.add_violation(inputs, r, 'concrete run of an undecided path')

    # -- one path
    def run_path(self, e, prefix):
        e.begin(prefix)
        loader.reset()
        t = SymCtx(e, self)
        c = self.case
        try:
            try:
                m = importlib.import_module(c['module'])
                getattr(m, c['func'])(t, **c['params'])
            except CheckViolated as ex:
                self.assertion(e, z3.BoolVal(True), ex.msg)
            except EngineSignal:
                raise
            except RecursionError as ex:
                self.assertion(e, z3.BoolVal(True), 'RecursionError')
            except RuntimeError as ex:
                if 'duplicate input' in str(ex):
                    raise
                self.exc(e, ex)
            except Exception as ex:
                self.exc(e, ex)
            e.stats['paths'] += 1
            self.finish(e, t)
        except CheckViolatedDone:
            e.stats['paths'] += 1
        except PathInfeasible:
            pass
        except PathStop:
            e.stats['paths'] += 1
            self.finish(e, t)
        except core.Diverged as ex:
            if not e.stats['unknown']:
                raise RuntimeError(str(ex))
            self.note_incomplete(e, 'a query was decided once and given up on another time')
        except z3.Z3Exception as ex:
            raise RuntimeError('solver interface: %s' % str(ex)[:300])
        except PathIncomplete as ex:
            e.stats['paths'] += 1
            self.note_incomplete(e, str(ex))
            self.try_path_inputs(e)
        self.labels |= t.labels
        self.checks += t.checks

    def exc(self, e, ex):
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = ''
        for fr in tb:
            if '/neocore/' in fr.filename or '/harness/' in fr.filename:
                where = '%s:%s' % (os.path.basename(fr.filename), fr.lineno)
        self.debug_tb = traceback.format_exc()
        try:
            txt = str(ex)[:120]
        except BaseException:
            txt = ''
        self.assertion(e, z3.BoolVal(True), 'uncaught %s %s at %s' % (type(ex).__name__, txt, where))

    def finish(self, e, t):
        if self.validated + len(self.mismatches) >= self.cfg.get('validate_max', 12):
            return
        try:
            m = e.model()
        except EngineSignal:
            return
        inputs = concrete_inputs(e, m)
        if len(self.samples) < 3:
            self.samples.append(inputs)
        r = self.replay(inputs)
        if self.bad(r):
            self.add_violation(inputs, r, 'path witness')
            return
        if r['status'] != 'ok':
            if not e.approx:
                self.mismatches.append(dict(inputs=inputs, native=r))
            return
        if not e.approx:
            so = [(n, sym_obs(m, v)) for n, v in e.observations]
            no = [tuple(x) for x in r['obs']]
            ok = len(so) == len(no) and all(a[0] == b[0] and ('?' in a[1] or '?' in b[1] or a[1] == b[1]) for a, b in zip(so, no))
            if not ok:
                self.mismatches.append(dict(inputs=inputs, sym=so[:6], nat=no[:6]))
                return
        self.validated += 1

    def run(self, prefixes, slice_s, deadline):
        e = Engine(solver_timeout_ms=self.cfg.get('solver_timeout_ms', 20000), max_ticks=self.cfg.get('max_ticks', 400000),
                   deadline=deadline)
        core.set_engine(e)
        e.worklist = list(prefixes)
        t0 = time.time()
        out_of_time = False
        maxv = self.cfg.get('max_violations', 3)
        while e.worklist and len(self.violations) < maxv:
            p = e.worklist.pop()
            try:
                self.run_path(e, p)
            except OutOfBudget:
                e.worklist.append(p)
                out_of_time = True
                break
            if time.time() - t0 > slice_s:
                break
        return dict(stats=e.stats, incomplete=e.incomplete, notes=sorted(e.notes), leftover=e.worklist,
                    violations=self.violations, unreproduced=self.unreproduced[:3], known=self.known,
                    validated=self.validated, mismatches=self.mismatches[:3], n_mismatch=len(self.mismatches), samples=self.samples,
                    labels=sorted(self.labels),
                    checks=self.checks, native_runs=self.native_runs, out_of_time=out_of_time,
                    ufs=sorted(set(k[0] for k in e.uf_cache)))


class CheckViolatedDone(EngineSignal):
    pass
