"""second opinions: cvc5 with bit-vector arithmetic turned into integer arithmetic
(decides multiplication and division by constants that bit-blasting does not finish)"""
import os
import re
import shutil
import subprocess
import tempfile
import time
import z3
from . import intblast

Z3NEW = shutil.which('z3-new')
CVC5 = shutil.which('cvc5') or '/usr/local/bin/cvc5'


def consts(ts):
    seen, out, todo = set(), {}, list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        todo += x.children()
        if len(seen) > 200000:
            return None
    return out


def text(asserts, names):
    s = z3.Solver()
    s.add(*asserts)
    t = s.to_smt2()
    t = re.sub(r'\b(bvudiv|bvurem|bvsdiv|bvsrem|bvsmod)_i\b', r'\1', t)
    t = re.sub(r'\(set-info [^\n]*\n', '', t)
    t = t.replace('; benchmark generated from python API\n', '')
    i = t.rindex('(check-sat)')
    t = '(set-logic ALL)\n' + t[:i] + '(check-sat)\n'
    if names:
        t += '(get-value (%s))\n' % ' '.join(names)
    return t


def quote(n):
    return n if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', n) else '|%s|' % n


def value(t, v):
    if v in ('true', 'false'):
        return t == (v == 'true')
    if v.startswith('#b'):
        n = int(v[2:], 2)
    elif v.startswith('#x'):
        n = int(v[2:], 16)
    elif v.startswith('(_ bv'):
        n = int(v.split()[1][2:])
    else:
        n = int(re.sub(r'[()\s]', '', v))
    return t == z3.BitVecVal(n, t.size())


VAL = r'(#b[01]+|#x[0-9a-fA-F]+|\(_ bv\d+ \d+\)|true|false|\d+|\(-\s+\d+\))'


def race(jobs, timeout_s):
    """[(command, text, names -> bit-vector terms)]: the first definite answer"""
    ps = []
    try:
        for cmd, txt, names in jobs:
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
            f.write(txt)
            f.close()
            o = open(f.name + '.out', 'w')
            ps.append([subprocess.Popen(cmd + [f.name], stdout=o, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL), f.name, names])
            o.close()
        end = time.time() + timeout_s
        left = list(ps)
        while left and time.time() < end:
            for x in list(left):
                if x[0].poll() is None:
                    continue
                left.remove(x)
                o = open(x[1] + '.out').read()
                if o.startswith('unsat'):
                    return ('unsat',)
                if o.startswith('sat'):
                    out = []
                    for n, c in x[2].items():
                        m = re.search(r'\(\s*%s\s+%s\s*\)' % (re.escape(quote(n)), VAL), o)
                        if m:
                            out.append(value(c, m.group(1)))
                    return ('sat', out)
            time.sleep(0.02)
        return ('unknown',)
    finally:
        for x in ps:
            if x[0].poll() is None:
                x[0].kill()
            x[0].wait()
            for f in (x[1], x[1] + '.out'):
                try:
                    os.unlink(f)
                except OSError:
                    pass


def pinned(asserts, eqs):
    """the assignment is checked by z3 against the unchanged assertions"""
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*asserts)
    s.add(*eqs)
    if s.check() == z3.sat:
        m = s.model()
        if all(z3.is_true(m.eval(c, model_completion=True)) for c in asserts):
            return m
    return None


def nonlinear(ts):
    seen, todo = set(), list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_mul(x) and z3.is_int(x) and sum(not z3.is_int_value(a) for a in x.children()) > 1:
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not z3.is_int_value(x.arg(1)):
            return True
        todo += x.children()
    return False


def check(asserts, timeout_s):
    """(z3 result, z3 model or None)"""
    jobs = []
    ms = str(int(timeout_s * 1000))
    try:
        b, ints = intblast.blast(asserts)
    except intblast.Unsupported:
        b = None
    if b is not None:
        if not nonlinear(ints):     # (z3's nonlinear reasoning does not keep to its time limit)
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*ints)
            r = s.check()
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                m = pinned(asserts, intblast.assignment(b, s.model()))
                if m is not None:
                    return r, m
        names = {i.decl().name(): t for t, i in b.vars.values()}
        names.update({i.decl().name(): t for t, i in b.bools.values()})
        try:
            t = text(ints, [quote(n) for n in sorted(names)])
            jobs.append(([CVC5, '--lang=smt2', '--produce-models', '--tlimit=' + ms], t, names))
            if Z3NEW:
                jobs.append(([Z3NEW, '-T:%d' % int(timeout_s + 1)], t, names))
        except Exception:
            pass
    cs = consts(asserts)
    if cs is not None:
        cs = {n: c for n, c in cs.items() if z3.is_bv(c) or z3.is_bool(c)}
        try:
            t = text(asserts, [quote(n) for n in sorted(cs)])
            if len(t) < 4000000 and 'FloatingPoint' not in t and 'to_fp' not in t:
                jobs.append(([CVC5, '--lang=smt2', '--produce-models', '--tlimit=' + ms, '--solve-bv-as-int=sum'], t, cs))
        except Exception:
            pass
    if not jobs:
        return z3.unknown, None
    r = race(jobs, timeout_s)
    if r[0] == 'unsat':
        return z3.unsat, None
    if r[0] == 'sat':
        m = pinned(asserts, r[1])
        if m is not None:
            return z3.sat, m
    return z3.unknown, None
