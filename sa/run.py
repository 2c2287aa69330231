#!/usr/bin/env python3
"""Decide one property: python3 sa/run.py CNN"""
import importlib
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import props
from framework import Check
from mir import MirError


def select(prog, pats):
    rx = [re.compile(p) for p in pats]
    out = set()
    for fid, b in prog.fns.items():
        if '{closure#' in b.name:
            continue
        text = '%s|%s' % (b.loc().split(':')[0], fid)
        if '/test' in text or '::test::' in fid or '::tests::' in fid:
            continue
        if any(r.search(text) for r in rx):
            out.add(fid)
    return out


def agreement(c, p):
    from agree import Agreement
    A = Agreement.get(c.prog, force=c.tier == 'thorough')
    fids = select(c.prog, p['code'])
    ref = select(A.ref, p['code'])
    out, stats = A.judge(fids)
    same = 0
    for fid, st, det in out:
        key = 'agrees:' + fid
        if st == 'violated':
            c.violated(key, det)
        elif st == 'undecided':
            c.undecided(key, det)
        else:
            if det == 'same code as reviewed':
                same += 1
            c.ok(key, det)
    c.functions |= set(fids)
    c.paths += stats['paths']
    c.extra['agreement'] = dict(functions=len(fids), functions_in_reviewed_code=len(ref), unchanged=same,
                                changed=stats['changed'], compared_by_value_flow=stats['compared'],
                                path_pairs=stats['pairs'], paths=stats['paths'])
    c.rule('agreement', 'each function of the property returns and leaves in memory the same values as the reviewed '
           'function under every consistent combination of their path facts')


def main():
    pid = sys.argv[1]
    p = [x for x in props.P if x['id'] == pid][0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    c = Check(pid, tier)
    try:
        c.prog
    except MirError as x:
        print('ERROR: the current tree could not be analysed: %s' % x)
        return 1
    try:
        mod = importlib.import_module('checks.' + pid.lower())
    except ModuleNotFoundError as x:
        if 'checks' not in str(x.name or ''):
            raise
        mod = None
    if mod is not None:
        mod.check(c)
    agreement(c, p)
    return c.finish(p['title'])


if __name__ == '__main__':
    sys.exit(main())
