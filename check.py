"""Command line: check.py <check> [--tier quick|thorough] [--replay FILE]
[--runs N] [--digest SEED] [--scenario SEED]"""

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def parse(argv):
    a = dict(check=argv[0], tier=os.environ.get('VERIF_TIER', 'quick'))
    i = 1
    while i < len(argv):
        a[argv[i].lstrip('-')] = argv[i + 1]
        i += 2
    return a


def main():
    a = parse(sys.argv[1:])
    import warnings
    warnings.simplefilter('ignore')
    from sim import core
    name = a['check'].lower()
    if name in ('c05', 'c06'):
        from sim import disk
        disk.preload()
    try:
        seed0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed0 = 1
    if 'replay' in a:
        return core.replay(name, a['replay'])
    if 'digest' in a:
        mod = core.load(name)
        s = int(a['digest'])
        print(core.run_one(mod, mod.generate(s, a['tier']))['digest'])
        return 0
    if 'scenario' in a:
        mod = core.load(name)
        print(core.dumps(mod.generate(int(a['scenario']), a['tier']), indent=1))
        return 0
    return core.main(name, a['tier'], seed0, runs=int(a['runs']) if 'runs' in a else None,
                     jobs=int(a['jobs']) if 'jobs' in a else None)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
