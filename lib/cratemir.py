"""Paths of functions of the generator itself, on the MIR of the crate macroslib."""
import os, re
import core, rown


class CrateGlue(rown.Glue):
    def _lines(self, rel):
        return open(os.path.join(core.REPO, rel)).read().split('\n')


class CrateInterp:
    def __init__(self, crate, file, inline=None, unroll=None):
        p = os.path.join(core.REPO, file)
        fns = dict(crate.fns)
        self.consts = getattr(crate, 'consts', None) or crate.fns.get('%consts') or {}
        fns['%consts'] = self.consts
        self.g = CrateGlue(fns, open(p).read(), p)
        self.it = rown.Interp(self.g, inline=inline or (lambda h: False), **({'unroll': unroll} if unroll else {}))

    def run(self, f, args=None, st=None):
        return self.it.run(self.g.fns[f.name], args, st)

    def literal(self, v):
        """v as text, with the string statics it mentions"""
        t = rown.show(v)
        return re.sub(r'\{(alloc\d+)[^}]*\}', lambda m: ' '.join(self.consts.get(m.group(1), [m.group(0)])), t)

    def closure_result(self, v):
        """text of what the closure in v returns"""
        m = re.search(r'\{closure@([\w/.\-]+):(\d+):(\d+)', str(v))
        if not m:
            return None
        for n, f in self.g.fns.items():
            if '{closure' in n and f.file == m.group(1) and any(('%s:%s:%s' % m.groups()) in str(t) for t in f.types.values()):
                try:
                    ps = self.it.run(f)
                except rown.Unsupported:
                    return None
                return ' | '.join(sorted({rown.show(p.ret) for p in ps} | {e[1] for p in ps for e in p.events if e[0] == 'call'}))
        return None
