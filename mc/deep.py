"""Programs of other spaces, put inside blocks and procedures nested in each other."""
from . import harness as H, algol as A


class Deep(H.Space):
    name = 'deep'

    def __init__(self, bases, quick=(14, 60), thorough=(14, 400), levels=(1, 7, 15, 16, 20)):
        self.bases = bases
        self.per = {'quick': quick[1], 'thorough': thorough[1]}
        self.levels = levels
        self.rule = 'a regular selection of the programs of the spaces %s, each inside %s blocks, procedures, or both alternately' % (', '.join(b.name for b in bases), '/'.join(map(str, levels)))

    def descs(self, tier):
        for b, sp in enumerate(self.bases):
            sp.tier = tier
            ds = list(sp.descs('quick'))
            step = max(1, len(ds) // (self.per[tier]))
            for d in ds[step // 2::step]:
                for shape in ('blocks', 'procs', 'mixed'):
                    for n in self.levels:
                        yield b, d, shape, n

    def case(self, x):
        b, d, shape, n = x
        sp = self.bases[b]
        sp.tier, sp.build = self.tier, getattr(self, 'build', None)
        A.DEEP = (shape, n)
        try:
            c = sp.case(d)
        finally:
            A.DEEP = None
        if c is not None:
            c.key = 'deep %s %d:%s' % (shape, n, c.key)
        return c
