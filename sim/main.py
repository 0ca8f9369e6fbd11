import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seams
seams.install()
from sim import core


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'replay':
        body = json.load(open(a[1]))
        mod = core.load_prop(body['property'])
        r = core.judged_run(mod, body['case'])
        if '--json' in a:
            print(json.dumps(dict(status=r['status'], cls=r.get('cls'), digest=r['digest'])))
        else:
            print(r['status'], r.get('cls', ''), '\n', r.get('msg', ''))
            for t in r.get('trail', []):
                print('  |', t)
        return 1 if r['status'] == 'violation' else (0 if r['status'] == 'ok' else 2)
    if a[0] == 'digests':      # determinism experiments: pid seed n
        pid, seed, n = a[1], int(a[2]), int(a[3])
        mod = core.load_prop(pid)
        for r in core.pool(mod, pid, seed, 'quick', n):
            print(r['k'], r['status'], r['digest'], r.get('cls', ''))
        return 0
    if a[0] == 'selftest':
        m = json.load(open(os.path.join(core.VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            mod = core.load_prop(c['property'])
            for t in ('quick', 'thorough'):
                x, y = (core.make_case(mod, c['property'], 1, t, 0) for _ in range(2))
                assert x == y
        print('selftest ok')
        return 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return core.check(pid, tier, seed)


if __name__ == '__main__':
    try:
        code = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
