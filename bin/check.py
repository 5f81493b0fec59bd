#!/usr/bin/env python3
"""check.py <property> [--replay file]: see DESIGN.md."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import vp, core


def load():
    import checks_img, checks_feat, checks_dict, checks_ocr, checks_flow, checks_damage
    t = {}
    for m in (checks_img, checks_feat, checks_dict, checks_ocr, checks_flow, checks_damage):
        t.update(m.CHECKS)
    return t


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    checks = load()
    ctx = core.Ctx(pid, tier, seed)
    try:
        if '--replay' in sys.argv:
            v = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            runs = core.execute(ctx, [v['case']], 60)
            env = dict(v['env'])
            bad, _ = vp.validate(v['module'], core.split(v['case'], runs[0]), cfg=v['cfg'], env=env)
            for e in runs[0]:
                print(('REJECTED ' if e['id'] in bad else 'accepted ') + json.dumps(e)[:1500])
            return 1 if bad else 0
        checks[pid](ctx)
        return core.finish(ctx, t0)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except vp.CheckError as e:
        print('check error: %s' % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
