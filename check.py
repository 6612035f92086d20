#!/usr/bin/env python3
"""Decides one property of the package in /repo from its current source.

usage: check.py ID [--tier quick|thorough] [--repo DIR]

Exit 0: no violation found (known findings are printed as KNOWN-FINDING lines).
Exit 1: at least one `VIOLATION property=<id> replay=<path>` line.
Exit 2: the analysis itself could not be carried out.
"""
import argparse
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(path=os.path.join(HERE, 'known-findings.txt')):
    """{(property, finding id): text} of the committed list."""
    out = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                if line.startswith('known: '):
                    w = dict(x.split('=', 1) for x in line.split()[1:3])
                    out[w['property'], w['id']] = line.split(None, 3)[3].strip()
    return out


def run(pid, tier, repo, seed):
    from sa.program import Program
    from sa.effects import Purity
    from sa.laws import Checker, LawBook
    from sa import baseline, rules
    t0 = time.time()
    program = Program(repo)
    purity = Purity(program)
    base = baseline.load()
    book = LawBook()
    ck = Checker(program, purity, base, book)
    listed = known_findings()
    violations, known, unknown, samples = [], [], [], []
    stats = {'laws': 0, 'laws_same': 0, 'obligations': 0, 'tables': 0, 'class_laws': 0, 'overrides_checked': 0}

    def finding(where, what, rule, fid=None):
        if fid is not None and (pid, fid) in listed:
            known.append({'id': fid, 'where': where, 'what': what, 'listed': listed[pid, fid]})
        else:
            violations.append({'where': where, 'what': what, 'rule': rule})

    for law in book.laws:
        if pid not in law.props and pid not in law.facets:
            continue
        v = ck.verdict(law, pid)
        stats['laws'] += 1
        stats['obligations'] += v[2]
        where = '%s (%s)' % (law.actual.where, law.qual) if law.actual is not None else law.qual
        if v[0] == 'violation':
            finding(where, v[1], 'law ' + law.qual)
        elif v[0] == 'known':
            finding(where, v[1], 'law ' + law.qual, v[3])
        elif v[0] == 'unknown':
            unknown.append('%s: %s' % (law.qual, v[1] or 'shapes not comparable'))
        else:
            stats['laws_same'] += 1
            if len(samples) < 6 and v[2] > 1:
                samples.append('%s: %d obligations compared with %s' % (where, v[2], law.qual))
    for t in book.tables:
        if pid in t.props:
            v = ck.table(t)
            stats['tables'] += 1
            if v[0] == 'violation':
                finding('%s (%s)' % (v[2], t.qual), v[1], 'table ' + t.qual)
            elif v[0] == 'unknown':
                unknown.append(t.qual)
    for c in book.classes:
        if pid in c.props:
            v = ck.class_law(c)
            stats['class_laws'] += 1
            if v[0] == 'violation':
                finding(v[2], v[1], 'class ' + c.qual)
    for law, f, c in ck.overrides():
        if pid in law.props or pid in law.facets:
            stats['overrides_checked'] += 1
            v = ck.override_verdict(law, f, c, pid)
            if v[0] == 'violation':
                finding('%s (%s)' % (f.where, f.qual), v[1], 'override of ' + law.qual)
            elif v[0] == 'unknown':
                unknown.append('%s: override of %s' % (f.qual, law.qual))
    rule_stats = []
    ctx = rules.Context(program, purity, base, book, ck)
    for r in rules.for_property(pid):
        res = r(ctx, pid)
        rule_stats.append({'rule': res.name, 'statement': res.text, 'sites': res.sites,
                           'sample_sites': res.samples[:5]})
        if res.sites < res.minimum:
            raise rules.Broken('rule %s found %d sites, expected at least %d' % (res.name, res.sites, res.minimum))
        for where, what, fid in res.violations:
            finding(where, what, res.name, fid)
        unknown += ['%s: %s' % (res.name, u) for u in res.unknown]
    if stats['laws'] + sum(x['sites'] for x in rule_stats) == 0:
        raise rules.Broken('nothing to decide for ' + pid)
    extra = {}
    if tier == 'thorough':
        from selftest import depth
        extra = depth.run(pid, program, purity, base, book, ck, seed)
        for q, why in extra.pop('deep_violations', []):
            finding(q, why, 'law with helpers looked through')
    nfun = len({l.actual.qual for l in book.laws if l.actual is not None and (pid in l.props or pid in l.facets)})
    cov = {'explanation': (
        'Static: every function governed by a law of this property is summarised from the current source by gated '
        'value flow (result and effects as guarded terms, helpers looked through, loops as folds) and compared with the '
        'summary of the law text; the structural rules list their sites. Nothing is executed. "not_decided" lists places '
        'where the summaries could not be matched or told apart; they raise no alarm.'),
        'files_parsed': len(program.files), 'functions_compared': nfun,
        'classes': len(program.classes), 'rules': rule_stats, 'not_decided': unknown,
        'known_findings': known, 'samples': samples or [x['rule'] + ': ' + '; '.join(x['sample_sites']) for x in rule_stats][:6]}
    cov.update(stats)
    cov.update(extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['the law texts and rules state the property faithfully (they were reviewed against documentation and code)',
                          'attributes and methods reached by a baseline name have the meaning the package gives them (no monkey-patching from outside)',
                          'numbers are compared as exact reals; rounding is out of scope'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    return violations, known, unknown


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    out = {}

    def body():
        try:
            out['r'] = run(a.id, tier, a.repo, seed)
        except BaseException as exc:        # pylint: disable=broad-except
            import traceback
            traceback.print_exc()
            out['e'] = exc
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if 'r' not in out:
        print('ANALYSIS-BROKEN property=%s %s' % (a.id, out.get('e')))
        sys.exit(2)
    violations, known, unknown = out['r']
    seen = set()
    for k in known:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s: %s' % (a.id, k['id'], k['listed']))
    for i, v in enumerate(violations, 1):
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (a.id, i))
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump(dict(v, property=a.id, reproduce='python3 /verif/check.py %s' % a.id), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        print('    %s' % v['where'])
        print('    %s [%s]' % (v['what'][:900], v['rule']))
    print('%s: %d violation(s), %d known, %d not decided' % (a.id, len(violations), len(known), len(unknown)))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
