#!/usr/bin/env python3
"""Decides one property.

    check.py <property> [--tier quick|thorough] [--facet NAME]...
    check.py <property> --replay FILE
"""
import argparse
import json
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
PYTHON = '/usr/local/bin/python3-vt'
if os.path.realpath(sys.prefix) != '/opt/veriftools/pyvenv' and os.path.exists(
        PYTHON) and not os.environ.get('VF_REEXEC'):
    os.environ['VF_REEXEC'] = '1'
    os.execv(PYTHON, [PYTHON, str(HERE / 'check.py'), *sys.argv[1:]])
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))

from vf import engine  # noqa: E402


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get(
        'VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--facet', action='append')
    parser.add_argument('--budget', type=float)
    parser.add_argument('--replay')
    args = parser.parse_args()
    runner = engine.Runner(args.property, args.tier, args.seed, args.facet,
                           args.budget)
    if args.replay:
        data = json.loads(pathlib.Path(args.replay).read_text())
        failed, message, key = runner.replay(data['facet'], data['case'])
        print(message if failed else 'the case passes')
        if failed:
            print(f'VIOLATION property={args.property} replay={args.replay}')
        return int(failed)
    return runner.run()


if __name__ == '__main__':
    sys.exit(main())
