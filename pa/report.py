"""Collects obligations and violations of one property and writes the evidence."""
import json, os, sys, time
from .build import VERIF


class Report:
    def __init__(self, prop, level, technique, rule, trusted=()):
        self.prop, self.level, self.technique, self.rule = prop, level, technique, rule
        self.t0 = time.time()
        self.obl = []          # (kind, where, text, ok)
        self.viol = {}         # key -> text
        self.analysed = {}
        self.open = []
        self.soft = False      # set while the analysis behind the obligations met something it does not model
        self.trusted = list(trusted)

    def note(self, kind, items):
        self.analysed.setdefault(kind, set()).update(items if not isinstance(items, str) else [items])

    def ok(self, kind, where, text=''):
        self.obl.append((kind, where, text, True))

    def bad(self, kind, where, text):
        """A violated obligation.  `kind` and `where` identify it (no line numbers)."""
        if self.soft:
            self.undecided(where, '%s: %s (the analysis met calls it does not model)' % (kind, text))
            return
        self.obl.append((kind, where, text, False))
        self.viol.setdefault((kind, where), text)

    def check(self, cond, kind, where, text):
        (self.ok if cond else self.bad)(kind, where, text)
        return cond

    def undecided(self, where, text):
        """The analysis does not reach this: neither a proof nor a violation."""
        self.open.append((where, text))

    def floor(self, name, n, least):
        """Fails closed when fewer instances than confirmed by hand were analysed."""
        if n < least:
            self.bad('coverage', name, 'only %d instances of "%s" were found, at least %d were expected' % (n, name, least))
        else:
            self.ok('coverage', name, '%d instances' % n)

    def finish(self):
        known, fixed = load_known(self.prop)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        new = {k: v for k, v in self.viol.items() if '%s @ %s' % k not in known}
        kinds = {}
        for k, w, t, o in self.obl:
            kinds.setdefault(k, [0, 0])
            kinds[k][0] += 1
            kinds[k][1] += o
        sample = []
        seen = {}
        for k, w, t, o in self.obl:
            if seen.setdefault(k, 0) < 6:
                seen[k] += 1
                sample.append({'obligation': k, 'where': w, 'detail': t[:300], 'holds': o})
        cov = {
            'explanation': self.rule,
            'rule': self.rule,
            'obligations': len(self.obl),
            'discharged': sum(1 for o in self.obl if o[3]),
            'obligations_by_kind': {k: {'total': a, 'discharged': b} for k, (a, b) in sorted(kinds.items())},
            'analysed': {k: sorted(v)[:60] for k, v in sorted(self.analysed.items())},
            'analysed_counts': {k: len(v) for k, v in sorted(self.analysed.items())},
            'samples': sample[:60],
            'undecided': ['%s: %s' % o for o in self.open],
            'trusted_base': self.trusted,
            'checker_cmd': 'python3 check.py ' + self.prop,
        }
        ev = {
            'property': self.prop,
            'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': cov,
            'assumptions': self.trusted,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        json.dump(ev, open(path, 'w'), indent=1)
        for k, v in self.viol.items():
            if '%s @ %s' % k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known['%s @ %s' % k]))
        for w, t in self.open:
            print('UNDECIDED property=%s %s: %s' % (self.prop, w, t[:400]))
        if not new:
            print('%s holds: %d obligations discharged in %.1f s' % (self.prop, len(self.obl), time.time() - self.t0))
            return 0
        rp = os.path.join(VERIF, 'evidence', self.prop + '.violation.txt')
        with open(rp, 'w') as f:
            for (k, w), t in new.items():
                f.write('%s @ %s\n    %s\n' % (k, w, t))
        for (k, w), t in list(new.items())[:20]:
            print('  %s @ %s: %s' % (k, w, t[:600]))
        print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return 1


def load_known(prop):
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % prop):
                body = line.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                known[key] = text
            elif line.startswith('fixed: property=%s ' % prop):
                fixed.append(line)
    return known, fixed
