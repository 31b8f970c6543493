"""Running one function against a specification."""
from .terms import *
from . import terms as TM

from .engine import Interp, State, Site, Prog, mkref, Limit
from .judge import equal, entails, entails_eq, clean_path, FIELDS
from .util import guarded




def variants_agree(F):
    """no value is known as two different variants, once its name is resolved"""
    for t, v in F.disc.items():
        if isinstance(v, str):
            c = F.canon(t)
            if c is not t:
                a = TM.valias(c)
                w = a if isinstance(a, str) else F.disc.get(a) if isinstance(a, TM.T) else None
                if isinstance(w, str) and w != v or isinstance(w, frozenset) and v in w:
                    return False
    return True


def feasible(s):
    return variants_agree(s.facts) and TM.fm_feasible(s.facts.system([num(0)] + list(s.facts.num))) is not False


def ref(name):
    return mkref(("O", sym(name)), ())


def val(name):
    return mk("deref", sym(name))


def F(v, ty, name, variant=None):
    """field of a value of struct `ty`, by name"""
    names = FIELDS.get(ty)
    if v.op == "rec" and names and v.args[1] is None:
        return v.args[2][names.index(name)]
    return fld(v, variant, names.index(name), name)


class Spec:
    def __init__(self, prog, rep):
        self.P = prog
        self.rep = rep

    def interp(self, contracts=None, nomerge=True, **kw):
        I = Interp(self.P, contracts, **kw)
        I.nomerge = nomerge
        I.panic_states = []
        return I

    def method(self, ty, name, trait=None):
        b = self.P.method(ty, name, trait)
        if b is None:
            self.rep.notes.append("%s%s::%s not found" % (ty, " as " + trait if trait else "", name))
        return b

    def run(self, I, b, args, st, label, panics=True):
        """feasible outcomes; panics on valid arguments are violations"""
        I.panic_states = []
        outs = [(v, s) for v, s in I.run(b, args, st) if feasible(s)]
        self.rep.ran(b.path, len(outs), file=b.file)
        if not outs:
            self.rep.add("returns: " + label, "open", "no path returns")
        if panics:
            self.panics(I, label)
        return outs

    def panics(self, I, label):
        bad = 0
        for what, site, s in I.panic_states:
            if feasible(s):
                bad += 1
                self.rep.add("no panic on valid arguments: %s (%s)" % (label, what), "open" if any(l.unk for l in s.facts.lits) else "bad", "%s at %s" % (what, I.chain(site)))
        if not bad:
            self.rep.add("no panic on valid arguments: " + label, "ok")

    def same(self, I, s, got, want, key, msg):
        self.rep.judge(key, equal(I, s, got, want), "%s: got %s, want %s" % (msg, got, want))

    def holds(self, s, e, key, msg):
        """e >= 0 on this path"""
        self.rep.judge(key, entails(s, e), msg)
