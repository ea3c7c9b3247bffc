#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /repo's current tree by static analysis."""
import json
import os
import re
import shutil
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'engine'), os.path.join(VERIF, 'rules')]
sys.setrecursionlimit(20000)
import run                  # noqa
import unit                 # noqa
from common import Report   # noqa

HEAVY = ('looping', 'looping_unbounded', 'looping_named', 'program_named', 'program', 'looping_one', 'program_one', 'switch')


def known(pid):
    """key -> text of the listed findings of this property"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', line.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def work(prog, job):
    c, (name, rule, debug) = CHECK, job
    R = Report()
    mk = TIER == 'thorough' and c.thorough_policy or c.mkpolicy
    try:
        u = unit.run_unit(prog, 'witness::exec::' + name if '::' not in name else name, debug, mkpolicy=mk.get(rule) if isinstance(mk, dict) else mk, budget=c.budget)
    except KeyError as e:
        return R, [], 'missing anchor: %s' % e
    c.rules[rule](u, R)
    for k, n in u.I.undecided.items():
        R.notes['engine: ' + str(k)[:120]] = n
    if u.budget:
        R.notes['time budget of a unit ended in ' + u.budget] = 1
    R.count('states', u.I.steps)
    R.count('steps', len(u.steps))
    R.samples = samples(u)
    return R, sorted(u.I.blocks_seen), None


def samples(u):
    from common import show_step
    out = []
    for s in u.steps[:400:97]:
        out.append('%s: after %s, %s' % (u.name, str(unit.show(s.prev))[:100], show_step(s)[:140]))
    return out[:2]


def main():
    global CHECK, TIER
    t0 = time.time()
    pid = sys.argv[1]
    TIER = tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    import registry
    CHECK = c = registry.C[pid]
    R = Report()
    problems = []
    blocks = set()
    perunit = {}
    if c.special:
        c.special(R, tier)
        return finish(c, pid, tier, R, problems, blocks, perunit, t0)
    paths, tmp = run.dump()
    try:
        prog = run.load(paths)
        jobs = c.jobs + (c.thorough if tier == 'thorough' else [])
        if tier == 'thorough':
            c.budget = max(c.budget, 1800)
        jobs.sort(key=lambda j: HEAVY.index(j[0]) if j[0] in HEAVY else 99)
        for j, res, secs, exc in run.parallel(prog, work, jobs) if jobs else ():
            tag = '%s/%s%s' % (j[0], j[1], '/debug%d' % j[2] if j[2] else '')
            if exc:
                problems.append('%s: %s' % (tag, exc))
                continue
            r, seen, prob = res
            if prob:
                problems.append('%s: %s' % (tag, prob))
                continue
            ob = r.counts.get('obligations', 0)
            un = sum(r.undecided.values())
            perunit[tag] = {'obligations': ob, 'decided': ob - un, 'seconds': round(secs, 1)}
            if ob - un <= 0 and not r.violations and (ob or not c.empty_ok):
                problems.append('%s: no obligation of this program could be decided' % tag)
            blocks.update(seen)
            R.merge(r)
        if c.facts:
            c.facts(prog, R)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    decided = R.counts.get('obligations', 0) - sum(R.undecided.values())
    if decided < c.floor and not R.violations:
        problems.append('only %d obligations were decided; %d are expected at least' % (decided, c.floor))
    finish(c, pid, tier, R, problems, blocks, perunit, t0)


def finish(c, pid, tier, R, problems, blocks, perunit, t0):
    listed = known(pid)
    new = {k: m for k, m in R.violations.items() if k not in listed}
    old = {k: m for k, m in R.violations.items() if k in listed}
    ob = R.counts.get('obligations', 0)
    un = sum(R.undecided.values())
    fns = sorted({b for b, _ in blocks} | set(R.functions))
    cov = {
        'explanation': 'Static analysis of the MIR of /repo: ' + c.rule + '. ' + (c.what or ''),
        'rule': c.rule,
        'obligations': ob,
        'decided': ob - un,
        'undecided': un,
        'undecided_kinds': dict(sorted(R.undecided.items())[:40]),
        'functions_analysed': len(fns),
        'functions_of_the_crate': [f for f in fns if f.startswith('adextopa')][:200],
        'basic_blocks': len(blocks),
        'witness_programs': len(perunit),
        'per_program': perunit,
        'counts': R.counts,
        'notes': dict(list(R.notes.items())[:40]),
        'samples': R.samples[:12],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 1),
          'violations': [{'key': k, 'what': m, 'listed': k in listed} for k, m in R.violations.items()]}
    if problems:
        ev['problems'] = problems
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, m in old.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, listed[k]))
    if new:
        p = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
        with open(p, 'w') as f:
            for k, m in sorted(new.items()):
                f.write('[%s]\n  %s\n' % (k, m))
                print('  [%s] %s' % (k, m[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        sys.exit(1)
    if problems:
        for p in problems[:10]:
            print('BROKEN CHECK: ' + p, file=sys.stderr)
        sys.exit(2)
    print('property %s held: %d obligations, %d decided, %d functions, %d blocks, %.0f s' % (pid, ob, ob - un, len(fns), len(blocks),
                                                                                       time.time() - t0))


ASSUME = [
    'a matcher passed in from outside leaves the context and the scope stack it was given as they were (each matcher of the crate is checked to do so: C07, C12)',
    'the standard library and the regex crate behave as documented; the few of their functions that are not analysed from MIR are modelled in engine/models.py',
    'arithmetic overflow of counters that were merged in a loop is not reported',
    'obligations about values that were merged at a loop head may be undecided; they are counted, not assumed',
]

if __name__ == '__main__':
    try:
        main()
    except run.Broken as e:
        print('BROKEN CHECK: %s' % e, file=sys.stderr)
        sys.exit(2)
