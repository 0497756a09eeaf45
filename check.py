#!/usr/bin/env python3
"""Driver: `python3 check.py <property id>` analyses the working tree of the repository and decides one property.

exit 0: every obligation of the property's rule is discharged (listed known findings excepted)
exit 1: a violation, printed with the construct it was found in, and a VIOLATION line
exit 2: the analysis could not give an answer (an anchor vanished, a construct outside the model)
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.project import Project, AnalysisError, REPO  # noqa: E402
from sa import absint  # noqa: E402
from rules import RULES  # noqa: E402


def known(prop):
    res = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' | ')
                res[key.strip()] = text.strip()
    return res


class Report:
    """obligations met and broken; a finding is keyed by rule + construct/configuration, never by line."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations = 0
        self.findings = {}
        self.samples = []
        self.counts = {}
        self.notes = []

    def ok(self, text=None):
        self.obligations += 1
        if text and len(self.samples) < 12:
            self.samples.append(text)

    def bad(self, key, text):
        self.obligations += 1
        self.findings.setdefault(key, text)

    def check(self, cond, key, text, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, text)
        return bool(cond)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """the rule must have matched at least this many instances: fewer means an anchor vanished"""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError('only %d %s analysed, expected at least %d' % (self.counts.get(name, 0), name, minimum))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    t0 = time.time()
    rule = RULES[prop]
    mod = importlib.import_module('rules.' + rule['module'])
    rep = Report(prop, tier)

    def tick():
        used = time.time() - t0
        if used > 780 or used > 150 and rep.findings:
            raise AnalysisError('time used up')
    absint.TICK = tick
    try:
        project = Project()
        getattr(mod, 'check_' + prop)(project, rep)
        if not rep.obligations:
            raise AnalysisError('no obligation generated')
    except AnalysisError as e:
        if not rep.findings or all(k in known(prop) for k in rep.findings):
            print('ANALYSIS-ERROR property=%s %s' % (prop, e))
            traceback.print_exc(limit=-4)
            sys.exit(2)
        print('note: analysis stopped early: %s' % e)
    except Exception:
        traceback.print_exc(limit=-4)
        if not rep.findings or all(k in known(prop) for k in rep.findings):
            print('ANALYSIS-ERROR property=%s internal error' % prop)
            sys.exit(2)
        print('note: analysis stopped early: internal error')
    kn = known(prop)
    new = {k: v for k, v in rep.findings.items() if k not in kn}
    old = {k: v for k, v in rep.findings.items() if k in kn}
    wall = time.time() - t0
    cov = {'explanation': rule['explanation'], 'rule': rule['rule'], 'obligations': rep.obligations,
           'discharged': rep.obligations - len(rep.findings), 'samples': rep.samples or ['(none)'],
           'modules_parsed': len(project.modules), 'modules_consulted': sorted(project.consulted),
           'findings_known': sorted(old), 'findings_new': sorted(new)}
    cov.update(rep.counts)
    digest = hashlib.sha256()
    for n in sorted(project.modules):
        digest.update(project.modules[n].src.encode('utf-8', 'replace'))
    cov['source_digest'] = digest.hexdigest()[:16]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(wall, 3), 'assumptions': rule.get('assumptions', []),
          'violations': len(new)}
    out = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, prop + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False, default=str)
    print('%s: %d obligations, %d findings (%d known), %s, %.1fs' % (
        prop, rep.obligations, len(rep.findings), len(old),
        ', '.join('%s=%s' % p for p in sorted(rep.counts.items())), wall))
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s | %s' % (prop, k, rep.findings[k]))
    if new:
        path = os.path.join(out, prop + '.violations.txt')
        with open(path, 'w', encoding='utf-8') as fh:
            for k, v in sorted(new.items()):
                fh.write('%s\n    %s\n' % (k, v))
                print('  broken: %s\n          %s' % (k, v))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
