#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current tree.  Exit 0: holds; 1: VIOLATION."""
import sys, os, time, json, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other'}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    import facts
    try:
        facts.extract()
    except facts.AnalysisError as x:
        print('error: /repo does not build: %s' % str(x)[-2000:])
        return 2
    import lib, registry
    spec = registry.CHECKS[pid]
    r = lib.Report(pid)
    s = lib.Session()

    class Budget(BaseException):
        pass

    def late(*a):
        raise Budget()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    try:
        for f in spec['rules']:
            f(s, r)
        for rule, n in spec.get('floors', {}).items():
            r.need(rule, n)
    except lib.Missing as x:
        r.bad(pid + '/anchor', 'the analysis cannot find what the property is about: %s' % x)
    except lib.Unsupported as x:
        r.bad(pid + '/unsupported', 'the analysis cannot establish the property: %s' % x)
    except Budget:
        r.bad(pid + '/budget', 'the analysis cannot establish the property: no fixpoint within 600 s')
    except Exception as x:
        traceback.print_exc()
        r.bad(pid + '/internal', 'the analysis cannot establish the property: internal error %s: %s' % (type(x).__name__, x))
    signal.alarm(0)
    known, kf = {}, os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            w = line.split()
            if len(w) > 2 and w[0] == 'known:' and w[1] == 'property=' + pid:
                known[w[2]] = ' '.join(w[3:])
    bad = {k: m for k, m in r.viol.items() if k not in known}
    st = s.stats()
    obl = sum(len(v) for v in r.rules.values()) + len(r.viol)
    ev['coverage'] = {
        'explanation': spec['explain'],
        'obligations': obl,
        'discharged': obl - len(r.viol),
        'rules': {k: {'constructs': len(v), 'distinct': len(set(map(str, v))), 'samples': sorted(set(map(str, v)))[:12]} for k, v in r.rules.items()},
        'program_points': st['program_points'], 'edges': st['edges'],
        'functions_analysed': st['functions_analysed'],
        'library_functions_treated_as_opaque': st['library_functions_treated_as_opaque'],
        'notes': r.notes,
    }
    ev['assumptions'] = spec.get('assumes', []) + registry.COMMON_ASSUMES
    ev['violations'] = len(bad)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in r.viol:
        if k in known:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, r.viol[k]))
    if bad:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, m in sorted(bad.items()):
                f.write('%s: %s\n' % (k, m))
        for k, m in sorted(bad.items())[:20]:
            print('%s: %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s holds: %d obligations, %d program points, %d functions, %.1fs' % (pid, obl, st['program_points'], len(st['functions_analysed']), ev['wall_s']))
    return 0


sys.exit(main())
