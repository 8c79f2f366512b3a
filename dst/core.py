"""What every check shares: cases, outcomes, minimisation."""
import copy
import gc
import hashlib
import json


class Violation(Exception):
    """The code under test broke the property. cls names the kind of failure (stable
    under minimisation), the message says what exactly was observed."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, str(msg)


class Outcome:
    """What one simulated run did."""

    def __init__(self):
        self.viol = None            # {"cls", "msg"}
        self.trivial = False        # nothing that could have gone wrong was exercised
        self.sig = ""               # distinct interleaving / history / state reached
        self.fired = {}             # fault kind -> times it actually happened
        self.probes = {}            # rare condition -> times it was hit
        self.sim_s = 0.0            # simulated seconds
        self.steps = 0              # scheduling decisions / operations
        self.choices = None         # schedule decisions taken (for replay)
        self.log = []               # event log digest material (determinism check)

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def note(self, x):
        self.log.append(x)

    def as_dict(self):
        d = dict(self.__dict__)
        d["log"] = hashlib.sha256(repr(self.log).encode()).hexdigest()[:16]
        return d


def sig_of(*x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def run_case(prop, case):
    """One simulated execution: a pure function of (case, code under test)."""
    out = Outcome()
    gc.collect()
    gc.disable()
    try:
        prop.run(copy.deepcopy(case), out)
    except Violation as v:
        out.viol = {"cls": v.cls, "msg": v.msg[:2000]}
    finally:
        gc.enable()
    gc.collect()
    return out


def size(case):
    return len(json.dumps(case))


def generic_shrinks(case):
    """Smaller variants of a case: drop operations and faults, simplify the schedule."""
    for key in ("faults", "ops", "ops2", "histories", "tasks"):
        xs = case.get(key)
        if not isinstance(xs, list) or not xs:
            continue
        n = len(xs)
        chunk = n // 2
        while chunk >= 1:
            for i in range(0, n, chunk):
                c = copy.deepcopy(case)
                c[key] = xs[:i] + xs[i + chunk:]
                yield c
            chunk //= 2
    if isinstance(case.get("tasks"), list):
        for i, t in enumerate(case["tasks"]):
            if isinstance(t, dict) and isinstance(t.get("ops"), list):
                for j in range(len(t["ops"])):
                    c = copy.deepcopy(case)
                    del c["tasks"][i]["ops"][j]
                    yield c
    ch = case.get("choices")
    if ch:
        n = len(ch)
        for k in (0, n // 4, n // 2, 3 * n // 4):
            c = copy.deepcopy(case)
            c["choices"] = ch[:k]
            yield c
        chunk = max(1, n // 8)
        for i in range(0, n, chunk):
            if any(ch[i:i + chunk]):
                c = copy.deepcopy(case)
                c["choices"] = ch[:i] + [0] * len(ch[i:i + chunk]) + ch[i + chunk:]
                yield c


def minimise(prop, case, cls, deadline, clock, runner):
    """Greedy minimisation: keep any smaller variant that still fails the same way."""
    best = case
    tried = 0
    progress = True
    while progress and clock() < deadline:
        progress = False
        gens = [generic_shrinks(best)]
        if hasattr(prop, "shrinks"):
            gens.insert(0, prop.shrinks(best))
        for g in gens:
            for c in g:
                if clock() > deadline:
                    break
                tried += 1
                o = runner(c)
                if o is not None and o.get("viol") and o["viol"]["cls"] == cls:
                    if o.get("choices") is not None and "choices" in c:
                        ch = list(o["choices"])
                        while ch and ch[-1] == 0:
                            ch.pop()
                        c = dict(c, choices=ch)
                    if size(c) < size(best) or sum(c.get("choices") or []) < sum(best.get("choices") or []):
                        best, progress = c, True
                        break
            if progress:
                break
    return best, tried
