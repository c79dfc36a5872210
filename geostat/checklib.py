"""Obligations, findings, evidence and exit codes shared by all checks."""
import json
import os
import signal
import sys
import time
import traceback

from . import ir
from .arr import ShapeError, Unsupported
from .interp import AbsRaise
from .gf import Undecided, Reject

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


class Broken(Exception):
    """An anchor of the analysis vanished: no verdict."""


class OutOfTime(BaseException):
    """The time of the whole check is used up."""


def limit_time(seconds):
    """Interrupt the obligation under analysis after so many seconds (in this process); later ones are not begun."""
    def ring(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)


class Check:
    def __init__(self, pid, tier, seed, rule):
        self.pid, self.tier, self.seed, self.rule = pid, tier, seed, rule
        self.t0 = time.time()
        self.holds = []          # (rule, construct)
        self.viol = []           # dict
        self.und = []            # (rule, construct, reason)
        self.analysed = set()
        self.samples = 0
        self.cells = 0
        self.assumptions = set()
        self.rank, self.of = 0, 1      # this process analyses the obligations with index = rank modulo of
        self.count = 0
        self.late = False
        self.raising = False           # every obligation uses documented input: an exception is a violation

    # -- recording
    def ok(self, rule, construct, detail=''):
        self.holds.append((rule, construct, detail, self.count))

    def bad(self, rule, construct, detail, where=()):
        for v in self.viol:
            if v['rule'] == rule and v['construct'] == construct:
                return
        self.viol.append(dict(rule=rule, construct=construct, detail=str(detail)[:2000], where=list(where)[:6], order=self.count))

    def undecided(self, rule, construct, reason):
        self.und.append((rule, construct, str(reason)[:300], self.count))

    def note(self, w):
        """Remember what an abstract evaluation analysed."""
        self.analysed |= w.I.visited
        self.assumptions |= w.I.assumptions

    def obligation(self, rule, construct, thunk):
        """Run thunk; its exceptions mean 'undecided'."""
        self.count += 1
        if self.count % self.of != self.rank:
            return None
        if self.late:
            return self.undecided(rule, construct, 'no time left')
        try:
            return thunk()
        except OutOfTime:
            self.late = True
            self.undecided(rule, construct, 'no time left')
        except AbsRaise as e:
            if self.raising and e.loc:
                self.bad(rule, construct, f"documented input raises {e}", [str(e.loc)])
            else:
                self.undecided(rule, construct, f"raises {e} at {e.loc}")
        except (Unsupported, ShapeError, Undecided, Reject) as e:
            self.undecided(rule, construct, f"{type(e).__name__}: {e} at {ir.G.loc}")
        except Broken:
            raise
        except RecursionError:
            self.undecided(rule, construct, "recursion")
        except Exception as e:        # analyser has no model for this construct
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided(rule, construct, f"analyser: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        return None

    def verdict(self, rule, construct, res, where=(), detail=''):
        """Record a gf.Result."""
        self.samples += res.samples
        self.cells += res.cells
        if res.status == 'equal':
            self.ok(rule, construct)
        elif res.status == 'differ':
            self.bad(rule, construct, f"{detail} differ" + (f" when {res.info}" if res.info else ''), where)
        else:
            self.undecided(rule, construct, res.info)
        return res.status

    # -- parallel runs
    def state(self):
        return dict(holds=self.holds, viol=self.viol, und=self.und, analysed=self.analysed, samples=self.samples,
                    cells=self.cells, assumptions=self.assumptions)

    def merge(self, st):
        self.holds += st['holds']
        self.und += st['und']
        for v in st['viol']:
            if not any(x['rule'] == v['rule'] and x['construct'] == v['construct'] for x in self.viol):
                self.viol.append(v)
        self.analysed |= st['analysed']
        self.assumptions |= st['assumptions']
        self.samples += st['samples']
        self.cells += st['cells']

    # -- finishing
    def finish(self):
        self.holds = [h[:3] for h in sorted(self.holds, key=lambda t: t[3])]
        self.und = [h[:3] for h in sorted(self.und, key=lambda t: t[3])]
        self.viol.sort(key=lambda v: v['order'])
        known = load_known()
        live, kn = [], []
        for v in self.viol:
            k = [f for f in known if f['property'] == self.pid and f['rule'] == v['rule'] and f['construct'] == v['construct']
                 and v['detail'].startswith(f.get('detail', ''))]
            (kn if k else live).append(v)
        decided = len(self.holds) + len(self.viol)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level='other', wall_s=round(time.time() - self.t0, 2),
            violations=len(live),
            coverage=dict(
                explanation=self.rule,
                obligations=decided + len(self.und), decided=decided, held=len(self.holds),
                undecided=len(self.und), known_findings=len(kn),
                functions_analysed=len(self.analysed),
                functions=sorted('.'.join(map(str, f)) if isinstance(f, tuple) else str(f) for f in self.analysed)[:400],
                field_samples=self.samples, branch_cells=self.cells,
                samples=[f"{r}: {c}" + (f" ({d})" if d else '') for r, c, d in self.holds[:3] + self.holds[-3:]],
                undecided_list=[f"{r}: {c}: {d}" for r, c, d in self.und[:60]],
                violation_list=[f"{v['rule']}: {v['construct']}: {v['detail']}" for v in live],
            ),
            assumptions=sorted(self.assumptions)[:40])
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} [{self.tier}] obligations={decided + len(self.und)} held={len(self.holds)} "
              f"violated={len(self.viol)} undecided={len(self.und)} functions={len(self.analysed)} wall={ev['wall_s']}s")
        for v in kn:
            print(f"KNOWN-FINDING: property={self.pid} {v['rule']}: {v['construct']}: {v['detail'][:200]}")
        if live:
            rp = os.path.join(EVID, f"{self.pid}.violation.txt")
            with open(rp, 'w') as f:
                for v in live:
                    f.write(f"rule: {v['rule']}\nconstruct: {v['construct']}\ndetail: {v['detail']}\n")
                    for x in v['where']:
                        f.write(f"  at {x}\n")
                    f.write('\n')
            for v in live[:12]:
                print(f"  {v['rule']}: {v['construct']}: {v['detail'][:300]}")
                for x in v['where'][:3]:
                    print(f"      at {x}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if decided == 0:
            print("ANALYSIS-BROKEN: nothing decided")
            return 2
        return 0


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

