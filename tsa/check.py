"""The framework of the checks: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback
from contextlib import contextmanager
from .interp import Interp, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('TSA_ROOT', '/repo')
PROBE = 'timeseria.probe__'    # code of a check, analysed together with the one of the repository
MAX_UNDECIDED = 0.5
GUARD_S = 90     # at most, for each scenario
TOTAL_S = 600    # at most, for all


class FastStop(BaseException):
    pass


class Check(object):

    fast = None     # to stop at the first violation (development only)

    def __init__(self, prop, technique='', root=None, overlay=None, tier=None, quiet=False):
        self.prop = prop
        self.root = root or ROOT
        self.overlay = overlay
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.quiet = quiet
        self.t0 = time.time()
        self.rules = {}         # rule -> dict(text, obligations, constructs, violated, undecided)
        self.viols = []
        self.undec = []
        self.notes = []
        self.assumptions = []
        self.samples = []
        self.interps = []
        self.floors = {}

    # -- analysis

    def interp(self, probe=None, **cfg):
        overlay = dict(self.overlay or {})
        if probe:
            overlay[PROBE] = probe
        I = Interp(self.root, overlay=overlay)
        for key, v in cfg.items():
            setattr(I, key, v)
        I.init_modules()
        self.interps.append(I)
        return I

    def rule(self, name, text, floor=1):
        self.rules.setdefault(name, dict(text=text, obligations=0, discharged=0, undecided=0, constructs=set()))
        self.floors[name] = floor
        return name

    def ok(self, rule, construct, cond=True, msg='', where='', path=None):
        """An obligation of a rule on a construct: discharged, or violated."""
        r = self.rules.setdefault(rule, dict(text='', obligations=0, discharged=0, undecided=0, constructs=set()))
        r['obligations'] += 1
        r['constructs'].add(construct)
        if cond:
            r['discharged'] += 1
            if len(self.samples) < 12 and (rule not in [s['rule'] for s in self.samples] or len(self.samples) < 4):
                self.samples.append(dict(rule=rule, construct=construct, verdict='discharged'))
        else:
            self.viols.append(dict(rule=rule, construct=construct, message=msg, where=where, path=path or []))
            if self.fast is not None and rule + '|' + construct not in self.fast:
                raise FastStop()
        return cond

    def viol(self, rule, construct, msg, where='', path=None):
        return self.ok(rule, construct, False, msg, where, path)

    def undecided(self, rule, construct, why):
        r = self.rules.setdefault(rule, dict(text='', obligations=0, discharged=0, undecided=0, constructs=set()))
        r['obligations'] += 1
        r['undecided'] += 1
        r['constructs'].add(construct)
        self.undec.append(dict(rule=rule, construct=construct, why=str(why)[:400]))

    @contextmanager
    def guard(self, rule, construct):
        """What cannot be analysed is not decided (and counted as such), it is not a violation."""
        now = time.time()
        for I in self.interps:
            I.deadline = min(now + GUARD_S, self.t0 + TOTAL_S)
        try:
            yield
        except AnalysisError as e:
            self.undecided(rule, construct, 'analysis: {}'.format(e))
        except RecursionError:
            self.undecided(rule, construct, 'analysis: too deep')
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.undecided(rule, construct, 'internal: {}: {} at {}'.format(
                type(e).__name__, e, '; '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb[-3:])))
            if os.environ.get('TSA_DEBUG'):
                traceback.print_exc(limit=-3)

    # -- end

    def known(self):
        out = {}
        path = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                rest = line[len('finding:'):].strip()
                p, rest = rest.split(None, 1)
                if p != 'property=' + self.prop:
                    continue
                if rest.startswith('key=<'):
                    key, what = rest[5:].split('>', 1)
                    out[key.strip()] = what.strip()
        return out

    def finish(self):
        known = self.known()
        new = []
        found = {}
        for v in self.viols:
            key = v['rule'] + '|' + v['construct']
            if key in known:
                found.setdefault(key, v)
            else:
                new.append(v)
        # One report for each rule and construct
        uniq = {}
        for v in new:
            uniq.setdefault((v['rule'], v['construct']), v)
        new = list(uniq.values())
        total = sum(r['obligations'] for r in self.rules.values())
        und = sum(r['undecided'] for r in self.rules.values())
        out = sys.stdout
        for key in found:
            print('KNOWN-FINDING: property={} {}'.format(self.prop, known[key]), file=out)
        low = []
        for name, fl in self.floors.items():
            r = self.rules[name]
            if r['obligations'] < fl:
                low.append('{}: {} obligations, at least {} expected'.format(name, r['obligations'], fl))
        dead = (total == 0 or und > total * MAX_UNDECIDED) and not new
        replay = os.path.join(HERE, 'evidence', self.prop + '.replay.txt')
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        stats = {}
        for I in self.interps:
            for key, v in I.stats.items():
                if isinstance(v, (int, float)):
                    stats[key] = stats.get(key, 0) + v
                elif isinstance(v, (set, dict)):
                    stats.setdefault(key, set()).update(v)
        cov = dict(
            explanation='Static analysis of the current source under {}: {} obligations over {} constructs, {} discharged, {} violated, {} not decided'.format(
                self.root, total, len(set(c for r in self.rules.values() for c in r['constructs'])),
                sum(r['discharged'] for r in self.rules.values()), len(new) + len(found), und),
            obligations=total,
            discharged=sum(r['discharged'] for r in self.rules.values()),
            rules={name: dict(rule=r['text'], obligations=r['obligations'], discharged=r['discharged'], undecided=r['undecided'],
                              constructs=sorted(r['constructs'])[:200]) for name, r in self.rules.items()},
            undecided=self.undec[:50],
            samples=self.samples,
            analysed={key: (sorted(map(str, v))[:400] if isinstance(v, set) else v) for key, v in stats.items()},
            below_floor=low,
            known_findings=[known[key] for key in found],
            violations=new[:50],
        )
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level='other', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(new))
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        print('{}: {} obligations, {} discharged, {} undecided, {} violations ({} known) in {:.1f}s'.format(
            self.prop, total, cov['discharged'], und, len(new) + len(found), len(found), time.time() - self.t0))
        if os.environ.get('TSA_DEBUG'):
            for u in self.undec:
                print('  undecided', u['rule'], '|', u['construct'], '|', u['why'])
        for l in low:
            print('  below floor:', l)
        if new:
            with open(replay, 'w') as f:
                f.write('Property {}: {} violation(s) found in {}\n'.format(self.prop, len(new), self.root))
                for v in new:
                    f.write('\nrule: {} ({})\nconstruct: {}\nwhere: {}\n{}\n'.format(
                        v['rule'], self.rules[v['rule']]['text'], v['construct'], v['where'], v['message']))
                    for p in v['path']:
                        f.write('  via {}\n'.format(p))
                f.write('\nReplay: cd {} && python3 check.py {}\n'.format(HERE, self.prop))
            for v in new[:20]:
                print('  {} | {} | {} {}'.format(v['rule'], v['construct'], v['message'], ('at ' + v['where']) if v['where'] else ''))
            print('VIOLATION property={} replay={}'.format(self.prop, replay))
            return 1
        if dead:
            print('  the analysis does not decide anything on this tree')
            return 2
        return 0
