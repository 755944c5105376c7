"""runs the quick checks against planted bugs (applied to /repo and undone) and records the outcome in tools/catches.json"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, 'tools', 'catches.json')
for d in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip():
        sys.exit('dirty /repo')
    if subprocess.run(['git', '-C', '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, d)]).returncode:
        print(d, 'does not apply')
        continue
    t = time.time()
    try:
        p = subprocess.run(['./check', m['property'], 'quick'], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    hit = p.returncode == 1 and 'VIOLATION property=%s ' % m['property'] in p.stdout
    c = json.load(open(F)) if os.path.exists(F) else {}
    c[d] = 'Caught by the %s check.' % m['property'] if hit else 'Missed.'
    json.dump(c, open(F, 'w'), indent=1, sort_keys=True)
    print(d, m['property'], 'caught' if hit else 'MISSED rc=%d' % p.returncode, '%.0fs' % (time.time() - t), '' if hit else p.stdout[-300:] + p.stderr[-300:], flush=True)
