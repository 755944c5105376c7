"""Replay server: runs harnesses on the unmodified code with concrete inputs.
One request per line (JSON); every request runs in a forked child."""
import importlib
import json
import os
import select
import signal
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSYM_REPO', '/repo')
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'nsym')]
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)
from nsym import ctx        # noqa: E402


def run(req):
    t = ctx.NatCtx(req['inputs'])
    r = {}
    try:
        import logging
        logging.disable(logging.CRITICAL)
        m = importlib.import_module(req['module'])
        getattr(m, req['func'])(t, **req['params'])
        r['status'] = 'ok'
    except ctx.AssumeFailed:
        r['status'] = 'assume'
    except ctx.CheckFailed as e:
        r['status'] = 'violation'
        r['msg'] = str(e.msg)
    except MemoryError as e:
        r['status'] = 'violation'
        r['msg'] = 'MemoryError'
    except BaseException as e:
        r['status'] = 'violation'
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        fr = tb[-1] if tb else None
        msg = ''
        try:
            msg = str(e)[:160]
        except Exception:
            pass
        r['msg'] = 'uncaught %s: %s (%s:%s)' % (type(e).__name__, msg, os.path.basename(fr.filename) if fr else '?',
                                                fr.lineno if fr else '?')
    r['obs'] = t.obs
    r['checks'] = t.checks
    r['known'] = t.known
    return r


def main():
    out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    outf = os.fdopen(out, 'w')
    for line in sys.stdin:
        req = json.loads(line)
        try:
            importlib.import_module(req['module'])
        except BaseException as e:
            pass
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                r = run(req)
            except BaseException as e:
                r = {'status': 'error', 'msg': repr(e)[:300]}
            try:
                data = json.dumps(r).encode()
            except Exception as e:
                data = json.dumps({'status': 'error', 'msg': repr(e)[:300]}).encode()
            while data:
                n = os.write(wfd, data)
                data = data[n:]
            os._exit(0)
        os.close(wfd)
        end = time.time() + req.get('timeout', 20)
        buf = b''
        hung = False
        while True:
            left = end - time.time()
            if left <= 0:
                hung = True
                break
            rd, _, _ = select.select([rfd], [], [], left)
            if not rd:
                hung = True
                break
            d = os.read(rfd, 65536)
            if not d:
                break
            buf += d
        os.close(rfd)
        if hung:
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        if hung:
            r = {'status': 'hang'}
        elif not buf:
            r = {'status': 'crash', 'msg': 'process ended with status %d' % st}
        else:
            r = json.loads(buf)
        outf.write(json.dumps(r) + '\n')
        outf.flush()


if __name__ == '__main__':
    main()
