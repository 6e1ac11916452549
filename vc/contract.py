"""Contracts: precondition / frame / postcondition attached to a function of /repo."""
import re
import z3
from engine import Outcomes, PathEnd, Ptr, ToolLimit, as_int, bv, simp


class Contract:
    title = ''            # what the contract says, in words
    func = None           # regex over the normalised demangled name
    throws = ()           # exception typeinfo names the function may raise; None = anything
    props = ()

    def __init__(self):
        self.rx = re.compile(self.func)

    def short(self):
        return getattr(self, 'name', None) or self.title

    # --- verification side
    def setup(self, ex):
        """yield (state, args, ctx) for each case of the precondition"""
        raise NotImplementedError

    def post(self, ex, old, st, args, outcome, ctx):
        """obligations [(label, Bool)] for one finished path"""
        raise NotImplementedError

    # --- caller side
    def apply(self, ex, st, args, ins):
        raise NotImplementedError


class Contracts:
    def __init__(self, lst=()):
        self.lst = list(lst)
        self.disabled = set()
        self.cache = {}

    def add(self, c):
        self.lst.append(c)

    def find(self, name, d):
        k = (name, len(self.lst), len(self.disabled))
        if k not in self.cache:
            self.cache[k] = next((c for c in self.lst if c not in self.disabled and c.rx.search(d)), None)
        return self.cache[k]


def find_function(module, ex, rx, all=False):
    r = re.compile(rx)
    hits = [n for n in module.defs if r.search(ex.dem(n))]
    return sorted(hits) if all else (hits[0] if hits else None)
