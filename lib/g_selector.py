"""Histories for drivers/selector.cpp. A small mirror of what exists keeps the scripts well formed."""
from vlib import Scenario


LONG = [-1, 1, 999, 60000, 86400000, 2**31 - 4000, 2**31 - 1, 2**31, 2**31 + 5, 3 * 2**30, 2**32 - 1, 2**32, 2**32 + 7, 2**33 + 1000, 10**12]


class M:
    def __init__(self, rng):
        self.rng = rng
        self.ops = []
        self.o = {}          # i -> dict(k, open, peer, held, mem, n)
        self.nid = 1

    def usable(self, i):
        o = self.o[i]
        return o['held'] or o['mem']

    def new(self, k='sock'):
        i = self.nid
        self.nid += 1
        self.o[i] = dict(k=k, open=True, peer=True, held=True, mem=False, n=0, fresh=False)
        self.ops.append(('new %d' if k == 'sock' else 'newl %d') % i)
        return i

    def add(self, i):
        o = self.o[i]
        fail = self.rng.random() < .07
        self.ops.append('add %d %d%s' % (i, self.rng.randrange(1, 2**30), ' fail' if fail else ''))
        if o['open'] and not o['mem'] and not fail:
            o['mem'] = o['fresh'] = True

    def rm(self, i):
        self.o[i]['mem'] = False
        self.ops.append('rm %d' % i)

    def drop(self, i):
        self.o[i]['held'] = False
        self.ops.append('drop %d' % i)

    def disc(self, i):
        o = self.o[i]
        o['open'] = o['peer'] = o['fresh'] = False
        self.ops.append('disc %d' % i)

    def reopen(self, i):
        o = self.o[i]
        o['open'] = o['peer'] = True
        o['n'] = 0
        self.ops.append('reopen %d' % i)

    def some(self, f):
        c = [i for i in self.o if self.usable(i) and f(self.o[i])]
        return self.rng.choice(c) if c else None

    def step(self, wts):
        r = self.rng
        k = r.choice(wts)
        if k == 'new':
            i = self.new('lst' if r.random() < .15 else 'sock')
            if r.random() < .7:
                self.add(i)
        elif k == 'add':
            i = self.some(lambda o: True)
            if i:
                self.add(i)
        elif k == 'rm':
            i = self.some(lambda o: o['mem']) if r.random() < .8 else self.some(lambda o: True)
            if i:
                self.rm(i)
        elif k == 'wait':
            x = r.random()
            if x < .06:              # virtual time: any timeout at all
                self.ops.append('wait %d virt' % r.choice(LONG))
            else:
                self.ops.append('wait %d%s' % (r.choice([0, 0, 0, 0, 0, 1, 5, 20]), ' intr' if x < .1 else ' err' if x < .12 else ''))
        elif k == 'wr':
            i = self.some(lambda o: o['k'] == 'sock' and o['peer'] and o['open'])
            if i:
                self.ops.append('wr %d %d' % (i, r.choice([1, 2, 5, 100])))
        elif k == 'rd':
            i = self.some(lambda o: o['k'] == 'sock' and o['open'])
            if i:
                self.ops.append('rd %d %d' % (i, r.choice([1, 2, 3, 200])))
        elif k == 'pclose':
            i = self.some(lambda o: o['k'] == 'sock' and o['peer'] and o['open'])
            if i:
                self.o[i]['peer'] = False
                self.ops.append('pclose %d' % i)
        elif k == 'disc':
            i = self.some(lambda o: o['open'])
            if i:
                self.disc(i)
        elif k == 'reopen':
            i = self.some(lambda o: o['k'] == 'sock' and not o['open'])
            if i:
                self.reopen(i)
        elif k == 'drop':
            i = self.some(lambda o: o['held'])
            if i:
                self.drop(i)
        elif k == 'conn':
            i = self.some(lambda o: o['k'] == 'lst' and o['open'])
            if i:
                self.ops.append('conn %d' % i)
        elif k == 'acc':
            i = self.some(lambda o: o['k'] == 'lst' and o['open'])
            if i:
                self.ops.append('acc %d' % i)
        elif k == 'late':
            i = self.some(lambda o: o['k'] == 'sock' and o['peer'] and o['open'] and o['mem'] and o['fresh'])
            if i:
                self.ops.append('late %d 3 %d' % (i, r.choice([1, 10, 30])))


READY = ['new'] * 3 + ['add', 'rm'] + ['wait'] * 8 + ['wr'] * 5 + ['rd'] * 4 + ['pclose', 'conn', 'acc', 'conn', 'late']
MEMB = ['new'] * 3 + ['add'] * 3 + ['rm'] * 4 + ['wait'] * 4 + ['wr'] * 4 + ['rd', 'pclose', 'drop'] + ['disc'] * 3 + ['reopen'] * 3 + ['conn', 'acc']


def ready(rng, n):
    out = []
    for k in range(n):
        m = M(rng)
        for _ in range(rng.randrange(1, 5)):
            m.add(m.new('lst' if rng.random() < .15 else 'sock'))
        for _ in range(rng.randrange(8, 40)):
            m.step(READY)
        m.ops.append('wait 0')
        m.ops.append('loop 0 60')
        out.append(Scenario('ready-%d' % k, m.ops, 'random'))
    return out


def memb(rng, n):
    out = []
    for k in range(n):
        m = M(rng)
        for _ in range(rng.randrange(1, 4)):
            m.add(m.new())
        for _ in range(rng.randrange(8, 40)):
            m.step(MEMB)
        m.ops.append('wait 0')
        out.append(Scenario('memb-%d' % k, m.ops, 'random'))
    return out


def crowds(rng, n):
    """Many ready members at once: more than one wait can report."""
    out = []
    for k in range(n):
        c = rng.choice([3, 20, 50, 99, 100, 101, 130, 199, 200, 201, 250])
        ops = ['many 1 %d' % (c + 1)]
        rdy = list(range(1, c + 1)) if rng.random() < .5 else rng.sample(range(1, c + 1), rng.randrange(1, c + 1))
        rng.shuffle(rdy)
        for i in rdy:
            ops.append('wr %d %d' % (i, rng.choice([1, 7])) if rng.random() < .9 else 'pclose %d' % i)
        for i in rng.sample(range(1, c + 1), c // 5):
            ops.append('rm %d' % i)
        if rng.random() < .5:
            ops += ['wait 0'] * rng.randrange(1, 6)
        ops += ['loop %d 60' % rng.choice([0, 0, 5]), 'wait 0']
        out.append(Scenario('crowd-%d-%d' % (c, k), ops, 'crowd'))
    return out


def reuse(rng, n):
    """Descriptor numbers passed between members."""
    out = []
    for k in range(n):
        m = M(rng)
        ids = [m.new() for _ in range(rng.randrange(2, 5))]
        for i in ids:
            if rng.random() < .85:
                m.add(i)
        for _ in range(rng.randrange(2, 7)):
            a, b = rng.choice(ids), rng.choice(ids)
            if m.o[a]['open'] and rng.random() < .8:
                m.disc(a)
            if not m.o[b]['open']:
                m.reopen(b)
                if rng.random() < .8:
                    m.add(b)
            elif rng.random() < .5:
                b = m.new()
                ids.append(b)
                m.add(b)
            if rng.random() < .7:
                m.rm(rng.choice([a, a, b]))
            for i in ids:
                if m.o[i]['open'] and m.o[i]['peer'] and rng.random() < .6:
                    m.ops.append('wr %d 1' % i)
            m.ops.append('wait 0')
        for i in ids:
            if rng.random() < .8:
                m.rm(i)
            m.ops.append('wait 0')
        out.append(Scenario('reuse-%d' % k, m.ops, 'reuse'))
    return out


def from_model(h, rng, n):
    """Histories printed by spec/MC_Selector (lists of op names)."""
    if len(h) > n:
        h = rng.sample(h, n)
    return [Scenario('model-%d' % k, ['new 1', 'new 2'] + [y for x in o for y in (x, 'wait 0')], 'model') for k, o in enumerate(h)]
