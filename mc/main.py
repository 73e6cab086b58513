"""usage: main.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if not a.replay:
        # every check imports the package in the parent, then forks workers
        module = None
        try:
            core.setup_environment()
            module = importlib.import_module('mc.checks.%s' % a.property.lower())
        except Exception as exc:
            import traceback
            traceback.print_exc()
            path = core.write_replay(a.property, None, dict(
                what='the package cannot be imported: %s' % exc), tier)
            print('VIOLATION property=%s replay=%s' % (a.property, path))
            return 1
        return core.run_check(module, tier, seed, a.jobs)
    core.setup_environment()
    module = importlib.import_module('mc.checks.%s' % a.property.lower())
    body = json.load(open(a.replay))
    if body['case'] is None:
        print('no case: %s' % body['problem'])
        return 1
    core._MODULE = module
    runs = [core._work(body['case'])[1] for _ in range(2)]
    texts = [json.dumps(core.jsonable(r.problems), sort_keys=True) for r in runs]
    print(json.dumps(core.jsonable(runs[0].problems), indent=1))
    print('replayed twice, same observations: %s' % (texts[0] == texts[1]))
    return 1 if runs[0].problems else 0


if __name__ == '__main__':
    sys.exit(main())
