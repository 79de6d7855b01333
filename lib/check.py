"""What every check shares: counting, reporting, evidence, known findings."""
import json, os, sys, time, traceback
from facts import Prog, Broken, VERIF, REPO

KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Check:
    def __init__(self, pid, title, rule):
        self.pid = pid
        self.title = title
        self.rule = rule
        self.viol = {}
        self.counts = {}
        self.floors = {}
        self.samples = []
        self.undecided = []
        self.assume = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """The number of instances confirmed by hand; fewer means the analysis
        no longer sees what it is about."""
        self.floors[what] = n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def violation(self, key, loc, msg):
        self.viol.setdefault(key, (loc, msg))

    def undecide(self, text):
        if text not in self.undecided:
            self.undecided.append(text)

    def assume_(self, text):
        if text not in self.assume:
            self.assume.append(text)


def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line:
                continue
            o = json.loads(line)
            if o.get('property') == pid and o.get('status') == 'known':
                r[o['key']] = o
    return r


def main(pid, title, rule, fn, level='other'):
    t0 = time.time()
    chk = Check(pid, title, rule)
    broken = None
    prog = None
    try:
        prog = Prog()
        fn(chk, prog)
        for w, n in chk.floors.items():
            if chk.counts.get(w, 0) < n:
                raise Broken('only %d instances of "%s" (expected at least %d): the analysis no longer sees its subject'
                             % (chk.counts.get(w, 0), w, n))
    except Broken as e:
        broken = str(e)
    except Exception:
        traceback.print_exc()
        broken = 'internal error'
    kn = known(pid)
    new = {k: v for k, v in chk.viol.items() if k not in kn}
    old = {k: v for k, v in chk.viol.items() if k in kn}
    wall = time.time() - t0
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
        if not new or prog is None:
            return 3
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    print('%s %s' % (pid, title))
    for w in sorted(chk.counts):
        print('  %6d %s%s' % (chk.counts[w], w, ' (floor %d)' % chk.floors[w] if w in chk.floors else ''))
    for u in chk.undecided[:40]:
        print('  not decided: ' + u)
    for k, (loc, msg) in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s: %s [%s]' % (pid, loc, msg.replace('\n', ' '), k))
    report = os.path.join(evd, pid + '.report.txt')
    with open(report, 'w') as f:
        f.write('%s\nrule: %s\n\n' % (title, rule))
        for k, (loc, msg) in sorted(new.items()):
            f.write('[%s]\n%s: %s\n\n' % (k, loc, msg))
        if not new:
            f.write('no violation\n')
    ev = {
        'property': pid, 'tier': chk.tier if chk.tier in ('quick', 'thorough') else 'quick', 'seed': chk.seed, 'level': level,
        'coverage': {
            'explanation': rule,
            'functions_in_model': len(prog.fns),
            'files_in_model': len(prog.nfiles),
            'counts': chk.counts,
            'functions_walked': sorted(prog.analysed),
            'samples': chk.samples or sorted(prog.analysed)[:5] or ['-'],
            'undecided': chk.undecided,
            'known_findings': sorted(old),
        },
        'assumptions': chk.assume,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if new:
        for k, (loc, msg) in sorted(new.items()):
            print('%s: %s [%s]' % (loc, msg, k))
        print('VIOLATION property=%s replay=%s' % (pid, report))
        return 1
    print('OK property=%s %.1fs' % (pid, wall))
    return 0
