"""Obligations, verdicts, evidence.

Every check is a list of obligations.  An obligation is a rule applied to one
construct of the analysed source.  Its verdict is one of

  holds      the rule is satisfied on every path the analysis derived
  violated   the derived behaviour is fully understood and breaks the rule
  undecided  the analysis lost precision; not an alarm, but recorded

A check exits 1 if something is violated that the known-findings file does not
list, else 0 (undecided obligations and missing anchors are printed).
"""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lost(Exception):
    """The analysis cannot interpret what it found: undecided."""


class Gone(Exception):
    """A public anchor does not exist any more."""


class Overtime(BaseException):
    """The analysis takes too long."""


LIMIT = 600


def overtime(*_):
    raise Overtime()


class Check:
    def __init__(self, pid, explanation='', assumptions=()):
        self.pid, self.explanation, self.assumptions = pid, explanation, list(assumptions)
        self.obs = []
        self.functions = set()
        self.counts = {}
        self.gone = []
        self.t0 = time.time()
        self.quiet = False

    # verdicts
    def add(self, verdict, rule, where, detail=''):
        self.obs.append(dict(verdict=verdict, rule=rule, where=where, detail=str(detail)[:600]))

    def holds(self, rule, where='', detail=''):
        self.add('holds', rule, where, detail)

    def violated(self, rule, where='', detail=''):
        self.add('violated', rule, where, detail)

    thorough = '--thorough' in sys.argv

    def undecided(self, rule, where='', detail=''):
        self.add('undecided', rule, where, detail)

    def expect(self, cond, rule, where='', detail='', bad=''):
        """cond: True holds, False violated, None undecided"""
        if cond is None:
            self.undecided(rule, where, bad or detail)
        elif cond:
            self.holds(rule, where, detail)
        else:
            self.violated(rule, where, bad or detail)
        return cond

    def part(self, rule, f, *a):
        """Run one sub-analysis; losing precision inside makes it undecided."""
        left = max(5, int(LIMIT - (time.time() - self.t0)))
        try:
            signal.signal(signal.SIGALRM, overtime)
            signal.alarm(left)
            try:
                return f(*a)
            finally:
                signal.alarm(0)
        except Overtime:
            self.undecided(rule, '', 'out of time')
        except Lost as e:
            self.undecided(rule, '', e)
        except Gone as e:
            self.gone.append(str(e))
        except RecursionError as e:
            self.undecided(rule, '', 'recursion limit')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = '; '.join(f'{os.path.basename(x.filename)}:{x.lineno}' for x in tb[-3:])
            self.undecided(rule, '', f'analysis error {type(e).__name__}: {e} [{loc}]')
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()

    def analysed(self, *names):
        self.functions.update(names)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def used(self, it):
        """Record what an interpreter looked at."""
        self.functions.update(it.functions)

    # result
    def finish(self):
        known = knownfindings()
        bad = [o for o in self.obs if o['verdict'] == 'violated']
        und = [o for o in self.obs if o['verdict'] == 'undecided']
        ok = [o for o in self.obs if o['verdict'] == 'holds']
        listed = [o for o in bad if (self.pid, key(o)) in known]
        new = [o for o in bad if (self.pid, key(o)) not in known]
        ev = dict(
            property=self.pid,
            tier='thorough' if self.thorough else 'quick',
            seed=int(os.environ.get('VERIF_SEED', '1') or 1),
            level='other',
            coverage=dict(
                explanation=self.explanation,
                obligations=len(self.obs),
                discharged=len(ok),
                undecided=len(und),
                functions_analysed=sorted(self.functions),
                counts=dict(sorted(self.counts.items())),
                rules=sorted({o['rule'] for o in self.obs}),
                obligation_list=self.obs[:400],
                anchors_missing=self.gone,
            ),
            wall_s=round(time.time() - self.t0, 3),
            assumptions=self.assumptions,
            violations=len(new),
        )
        d = os.environ.get('SA_EVID') or os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1, ensure_ascii=False)
        print(f'{self.pid}: {len(ok)} obligations hold, {len(new)} violated, {len(und)} undecided, '
              f'{len(self.functions)} functions, {ev["wall_s"]} s')
        for o in und:
            print(f'  undecided: {o["rule"]} {o["where"]}: {o["detail"][:200]}')
        for o in listed:
            print(f'KNOWN-FINDING: property={self.pid} {o["rule"]} {o["where"]}: {o["detail"][:200]}')
        for g in self.gone:
            print(f'  anchor missing: {g}')
        if new:
            p = os.path.join(d, self.pid + '.violation.txt')
            with open(p, 'w') as fd:
                for o in new:
                    fd.write(f'{o["where"]}: rule "{o["rule"]}" violated\n    {o["detail"]}\n')
            for o in new:
                print(f'  violated: {o["where"]}: {o["rule"]}: {o["detail"][:300]}')
            print(f'VIOLATION property={self.pid} replay={p}')
            return 1
        if not ok or self.gone:
            print(f'{self.pid}: UNDECIDED, the analysis lost track of this code; no violation shown')
        return 0


def key(o):
    return o['rule'] + ' @ ' + o['where'].split(':')[0]


def knownfindings():
    out = set()
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as fd:
            for line in fd:
                line = line.strip()
                if line.startswith('known: property='):
                    pid, rest = line[len('known: property='):].split(' ', 1)
                    out.add((pid, rest.split(' -- ')[0].strip()))
    except FileNotFoundError:
        pass
    return out
