"""Random valid programs of jobs.

A job of level L synchronises with (or waits for) queues of a level above L
only, and only posts to queues of level >= L: an unordered job or the drain of
a queue may legitimately run inside the call that posts it.  The main queue is
either below every other queue (its jobs may block) or above (the others may
synchronise with it, its own jobs block on nothing)."""


class Gen:
    def __init__(self, rng, focus):
        self.r = rng
        self.focus = focus
        self.nq = rng.randrange(1, 4)
        self.mainhigh = rng.random() < .5
        self.ops = {}
        self.nj = 0
        self.budget = rng.randrange(3, 14)
        self.nsyn = 0
        self.live = []          # syns owned by the main thread
        self.dead = set()
        self.noq = set()        # queues only the main thread may use (destroyed early)

    def new(self):
        self.nj += 1
        self.budget -= 1
        self.ops[self.nj] = []
        return self.nj

    def body(self, j, level, depth, blocking, syn=None, td=False):
        """fills job j's operations"""
        r = self.r
        out = self.ops[j]
        if r.random() < .4:
            out.append('z%d' % r.randrange(1, 6))
        if self.focus == 'queue' and r.random() < .5:
            out.append('i%d' % r.choice([k for k in range(1, self.nq + 1) if k not in self.noq] + [99]))
        if td:
            for _ in range(r.randrange(1, 3)):
                out.append('a%d' % syn)
        if depth < 3:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                if self.budget <= 0:
                    break
                self.post(out, level, depth + 1, blocking, syn, td)
        if self.focus == 'queue' and r.random() < .3:
            out.append('i%d' % r.choice([k for k in range(1, self.nq + 1) if k not in self.noq] + [99]))
        if blocking and r.random() < .05:
            out.append('b%d' % r.choice([1, 30, 150]))

    def usable(self, level):
        return [k for k in range(max(level, 1), self.nq + 1) if k not in self.noq]

    def post(self, out, level, depth, blocking, syn=None, td=False):
        r = self.r
        x = r.random()
        qs = self.usable(level)
        # who may be synchronised with
        above = [k for k in qs if k > level]
        if x < (.35 if self.focus == 'queue' else .1) and blocking:
            cand = list(above)
            if level in qs and level > 0:
                cand.append(level)          # its own queue: run inline
            if self.mainhigh and level < 98:
                cand.append(99)
            if cand:
                k = r.choice(cand)
                j = self.new()
                lv = 99 if k == 99 else k
                self.body(j, lv, depth, k != 99)
                out.append('s%d:%d' % (k, j))
                return
        if syn is not None and x < .5:
            self.synpost(out, syn, level, depth, blocking, td)
            return
        if x < .55 and blocking and self.focus == 'syn' and self.nsyn < 7 and depth > 0 and self.budget > 1:
            # a group of its own
            self.nsyn += 1
            s = self.nsyn
            out.append('o%d' % s)
            for _ in range(r.randrange(1, 3)):
                self.synpost(out, s, level, depth, blocking, False, strict=True)
            out.append('w%d' % s)
            out.append('v%d' % s)
            return
        k = r.choice([0] + qs + [99] if self.focus == 'queue' else [0, 0, 0] + qs + [99])
        j = self.new()
        if k == 99:
            self.body(j, 99 if self.mainhigh else 0, depth, not self.mainhigh)
        else:
            self.body(j, k if k else level, depth, blocking)
        out.append('q%d:%d' % (k, j))

    def synpost(self, out, s, level, depth, blocking, td, strict=False):
        r = self.r
        qs = [k for k in self.usable(level) if k > level]
        k = r.choice([0, 0] + qs)
        j = self.new()
        self.body(j, k if k else level, depth, blocking and not strict, None if strict else s, td)
        out.append('y%d,%d:%d' % (s, k, j))

    def program(self):
        r = self.r
        m = []
        if r.random() < .4 and self.nq > 1:
            self.noq.add(self.nq)       # destroyed right after the main thread's posts
        big = r.random() < .04
        if big:
            # more than the 256 jobs a thread may hold
            n = r.randrange(240, 330)
            m.append('r%d,%d' % (n, self.nj + 1))
            for _ in range(n):
                self.nj += 1
                self.ops[self.nj] = []
        steps = r.randrange(1, 6)
        for _ in range(steps):
            if self.budget <= 0:
                break
            x = r.random()
            if self.focus == 'syn' and x < .55 and self.nsyn < 6:
                self.nsyn += 1
                s = self.nsyn
                td = r.random() < .4
                m.append(('O%d' if td else 'o%d') % s)
                n0 = self.nj
                cnt = 0
                for _ in range(r.randrange(1, 5)):
                    self.synpost(m, s, 0, 1, True, td)
                    cnt += 1
                if r.random() < .3:
                    m.append('u%d,%d' % (s, r.randrange(1, cnt + 1)))
                if r.random() < .3:
                    j = self.new()
                    k = r.choice([0, 99] + self.usable(0))
                    m.append('n%d,%d:%d' % (s, k, j))
                    m.append('M')
                y = r.random()
                if y < .7:
                    m.append('w%d' % s)
                    if td:
                        m.append('c%d' % s)
                    m.append('v%d' % s)
                else:
                    self.live.append((s, td))
            elif self.focus == 'syn' and x < .7:
                m.append('f%d' % r.choice([0, 1, 2, 3, 5, 8, 13, 31]))
            elif x < .8 and self.focus == 'queue' and self.budget > 1:
                # a main queue job that somebody else posts, and the event loop
                j = self.new()
                i = self.new()
                self.body(j, 99, 3, False)
                self.ops[i] = ['z%d' % r.randrange(1, 30), 'q99:%d' % j]
                if r.random() < .5:
                    self.ops[i].append('z%d' % r.randrange(1, 6))
                m.append('q%d:%d' % (r.choice([0] + self.usable(0)), i))
                m.append('E%d' % j)
            else:
                self.post(m, 0, 0, True)
        for k in self.noq:
            for _ in range(r.randrange(0, 3)):
                j = self.new()
                m.append('q%d:%d' % (k, j))
            m.append(r.choice('dD') + str(k))
        m.append('M')
        for s, td in self.live:
            m.append('w%d' % s)
            if td:
                m.append('c%d' % s)
            m.append('v%d' % s)
        for k in range(1, self.nq + 1):
            if k not in self.noq:
                m.append(r.choice('dD') + str(k))
        m.append('M')
        par = r.choice([2, 2, 3, 4])
        mode = r.random()
        if mode < .5:
            sched = '0 %d' % r.choice([5, 30, 100, 300, 700])
        else:
            sched = '1 %d' % r.randrange(1, 6)
        line = 'prog %d %s %d %d %d main %s' % (r.randrange(1 << 40), sched, par, self.nq, self.nj, ' '.join(m))
        for j in sorted(self.ops):
            if self.ops[j]:
                line += ' job %d %s' % (j, ' '.join(self.ops[j]))
        return line


def lines(rng, focus, n):
    out = []
    while len(out) < n:
        l = Gen(rng, focus).program()
        if len(l.split()) < 3500 and max(len(x.split()) for x in l.split(' job ')) < 60:
            out.append(l)
    return out


def reseed(rng, line, n):
    """the same program under other schedules"""
    w = line.split()
    res = []
    for _ in range(n):
        w[1] = str(rng.randrange(1 << 40))
        if rng.random() < .5:
            w[2], w[3] = '0', str(rng.choice([5, 30, 100, 300, 700]))
        else:
            w[2], w[3] = '1', str(rng.randrange(1, 6))
        res.append(' '.join(w))
    return res
