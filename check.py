#!/usr/bin/env python3
"""check.py <property id> [--thorough]  -- decide one property by static analysis of /repo's current source."""
import sys, os, json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = None
    import ir, common, registry
    try:
        rule = registry.RULES[pid]
        prog = ir.load()
        ctx = common.Ctx(pid, prog)
        ctx.tier = tier
        rule['run'](ctx)
        if not ctx.ob and not ctx.viol: raise ir.AnalysisBroken('; '.join(ctx.undecided) or 'no obligation was found')
    except ir.AnalysisBroken as e:
        if ctx is None or not ctx.viol:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e['property'] == pid and e.get('status') == 'open': known[e['key']] = e
    new = [v for k, v in ctx.viol.items() if k not in known]
    old = [v for k, v in ctx.viol.items() if k in known]
    evd = os.environ.get('SA_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    nob = len(ctx.ob)
    cov = dict(
        explanation=rule['explain'],
        rule=rule.get('rule', ''),
        translation_units=len(prog.units), functions_in_program=len(prog.allfuncs),
        functions_analysed=sorted(ctx.funcs), call_sites=len(ctx.callsites), abstract_paths=ctx.paths, dataflow_steps=ctx.steps,
        obligations=nob, discharged=nob - len(ctx.viol) if nob >= len(ctx.viol) else 0,
        obligation_sites=sorted(set("%s @ %s" % (a, b) for a, b in ctx.ob))[:400],
        instance_counts=ctx.counts,
        known_findings=[v['key'] for v in old], notes=ctx.notes, undecided=ctx.undecided, truncated=getattr(ctx, 'truncated', False),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 3),
              violations=len(new))
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s:%s %s): %s" % (pid, v['key'], v['file'], v['line'], v['function'], v['message']))
    if new:
        rp = os.path.join(evd, pid + '.violation.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new:
            print("%s:%s: %s: [%s] %s" % (v['file'], v['line'], v['function'], v['rule'], v['message']))
            for fl, ln, tx in v['trace'][-12:]:
                print("    %s:%s %s" % (fl, ln, tx))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for n in ctx.notes:
        if n.startswith('exploration truncated'): print('NOTE', n)
    for n in ctx.undecided: print('UNDECIDED property=%s %s' % (pid, n))
    print("OK property=%s obligations=%d functions=%d paths=%d %.1fs" % (pid, nob, len(ctx.funcs), ctx.paths, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
