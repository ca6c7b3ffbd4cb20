"""Result object shared by all rules."""
import json, os


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # dicts: key, loc, rule, msg
        self.obligations = []     # (key, loc, rule, ok)
        self.notes = []
        self.cover = {}
        self.seen = {}

    def ok(self, rule, loc, what):
        self.obligations.append({"rule": rule, "at": loc, "what": what, "ok": True})

    def bad(self, rule, loc, what, key, msg):
        """key identifies the instance without line numbers."""
        k = rule + "|" + key
        if k in self.seen:
            return
        self.seen[k] = 1
        self.obligations.append({"rule": rule, "at": loc, "what": what, "ok": False})
        self.violations.append({"key": k, "at": loc, "rule": rule, "msg": msg})

    def check(self, cond, rule, loc, what, key, msg):
        if cond:
            self.ok(rule, loc, what)
        else:
            self.bad(rule, loc, what, key, msg)

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def floor(self, name, least):
        """the anchor must exist: fewer instances than expected = no answer"""
        from .ir import AnalysisError
        got = self.cover.get(name, 0)
        if got < least:
            raise AnalysisError("%s: expected at least %d instance(s) of '%s', found %d: the anchor moved; the rule must be re-pointed" %
                                (self.prop, least, name, got))
