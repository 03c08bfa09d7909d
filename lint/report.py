"""Obligation bookkeeping shared by every rule."""


class Report:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.obl = {}            # key -> (ok, detail, where)
        self.notes = []
        self.counts = {}
        self.assumptions = []

    def ob(self, key, ok, detail="", where=""):
        """one proof obligation of the rule; the key never contains a line number"""
        ok = bool(ok)
        old = self.obl.get(key)
        if old is not None and not old[0]:
            return False
        if old is None or not ok:
            self.obl[key] = (ok, detail, where)
        return ok

    def fail(self, key, detail="", where=""):
        self.ob(key, False, detail, where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, what):
        """fail closed: a rule that found fewer instances than were confirmed by hand decides nothing"""
        have = self.counts.get(name, 0)
        self.ob(f"floor:{name}", have >= n, f"expected at least {n} {what}, found {have}", "")

    def bad(self):
        return {k: v for k, v in self.obl.items() if not v[0]}


def loc(fn, line=None):
    return f"{fn.file}:{line if line else fn.line} ({fn.id})"
