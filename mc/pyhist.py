"""Python side of the histories of P12: explores operations on wrappers in lock step with an ownership model.
argv: kind depth slots"""
import faulthandler, itertools, sys
faulthandler.dump_traceback_later(800, exit=True)
import fgmod

KIND, DEPTH, NS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ARC, MUT, W, K = KIND in ("Am", "Ar"), KIND in ("Mu", "Mx", "Am"), fgmod.W, fgmod.K
VALS = (1, 2)


class World:
    """the model; real objects ride along in .w"""

    def __init__(self):
        self.slots = [None] * NS      # (wrapper number, object id)
        self.hold = None              # object id
        self.val = {}
        self.born = 0
        self.wn = 0

    def new(self, v):
        i = self.born
        self.born += 1
        self.val[i] = v
        return i

    def wrap(self, o):
        self.wn += 1
        return (self.wn, o)

    def live(self):
        s = {x[1] for x in self.slots if x}
        return s | ({self.hold} if self.hold is not None else set())

    def canon(self):
        ws, os_ = {}, {}
        f = lambda o: os_.setdefault(o, len(os_))
        sl = tuple(None if x is None else (ws.setdefault(x[0], len(ws)), f(x[1])) for x in self.slots)
        h = None if self.hold is None else f(self.hold)
        return sl, h, tuple(self.val[o] for o in os_)


class Bad(Exception):
    pass


def eq(a, b, what):
    if a != b or type(a) is not type(b):
        raise Bad("%s: %r, expected %r" % (what, a, b))


def raises(f, exc, text=None):
    try:
        v = f()
    except exc as e:
        if text is not None:
            eq(str(e), text, "text of the exception")
        return
    raise Bad("no %s, but %r" % (exc.__name__, v))


real = []


def put(m, s, obj, o, same=None):
    real[s] = obj
    m.slots[s] = same or m.wrap(o)


def ops(m):
    """all operations possible in this state: (name, function)"""
    out = []
    S = range(NS)
    full = [s for s in S if m.slots[s]]
    o = lambda s: m.slots[s][1]
    v = lambda s: m.val[o(s)]

    def op(name):
        def d(f):
            out.append((name, f))
        return d
    for s in S:
        for x in VALS:
            @op("new %d %d" % (s, x))
            def _(s=s, x=x):
                put(m, s, K(x), m.new(x))

        @op("from_failing %d" % s)
        def _(s=s):
            raises(lambda: W.make(5, False), fgmod.Error, "no 5")
        if not ARC or True:
            @op("make %d" % s)
            def _(s=s):
                put(m, s, W.make(1, True), m.new(1))
    for s in full:
        @op("del %d" % s)
        def _(s=s):
            real[s] = None
            m.slots[s] = None

        @op("read %d" % s)
        def _(s=s):
            eq(real[s].get(), v(s), "get")
            eq(repr(real[s]), "K%d" % v(s), "repr")
        for x in VALS:
            @op("set %d %d" % (s, x))
            def _(s=s, x=x):
                eq(real[s].set(x), v(s), "set")
                m.val[o(s)] = x
            if MUT:
                @op("mset %d %d" % (s, x))
                def _(s=s, x=x):
                    eq(real[s].mset(x), v(s), "mset")
                    m.val[o(s)] = x

                @op("smset %d %d" % (s, x))
                def _(s=s, x=x):
                    eq(W.smset(real[s], x), v(s), "static &mut")
                    m.val[o(s)] = x

        @op("by_value %d" % s)
        def _(s=s):
            m.born += 1
            eq(W.by_value(real[s]), v(s), "by value")

        @op("opt_len %d" % s)
        def _(s=s):
            m.born += 1
            eq(W.opt_value(real[s], 3), v(s) * 10 + 3, "optional by value")
            eq(W.opt_value(None, 3), 3, "None")

        @op("keep_value %d" % s)
        def _(s=s):
            W.keep_value(real[s])
            m.hold = m.new(v(s))

        @op("bad_last %d" % s)
        def _(s=s):
            raises(lambda: W.bad_last(real[s], 77), ValueError)
            eq(real[s].get(), v(s), "usable after a refused call")

        @op("bad_value %d" % s)
        def _(s=s):
            m.born += 1
            raises(lambda: W.bad_value(real[s], [fgmod.En.A, 77]), ValueError)

        @op("bad_vec %d" % s)
        def _(s=s):
            raises(lambda: W.sum([real[s], 5]), TypeError)
            raises(lambda: W.by_value(5), TypeError)

        @op("fail %d" % s)
        def _(s=s):
            m.born += 1
            raises(lambda: W.fail(real[s]), fgmod.Error, "failed %d" % v(s))

        @op("fail_ref %d" % s)
        def _(s=s):
            raises(lambda: W.fail_ref(real[s]), fgmod.Error, "failed ref %d" % v(s))
            raises(lambda: real[s].fail_self(), fgmod.Error, "failed self %d" % v(s))
        for t in S:
            if t != s:
                @op("alias %d %d" % (s, t))
                def _(s=s, t=t):
                    real[t] = real[s]
                    m.slots[t] = m.slots[s]

            @op("list %d %d" % (s, t))
            def _(s=s, t=t):
                q = [real[s]] + ([real[t]] if m.slots[t] else []) + [real[s]]
                want = sum((v(s), v(t) if m.slots[t] else 0, v(s)))
                m.born += len(q)
                eq(W.sum(q), want, "sum of a list")
                m.born += len(q)
                eq(W.sums(tuple(q)), want, "sum of a slice")
            if ARC:
                @op("same %d %d" % (s, t))
                def _(s=s, t=t):
                    put(m, t, W.same(real[s]), o(s))

                @op("same_ref %d %d" % (s, t))
                def _(s=s, t=t):
                    put(m, t, W.same_ref(real[s]), o(s))

                @op("same_opt %d %d" % (s, t))
                def _(s=s, t=t):
                    put(m, t, W.same_opt(real[s]), o(s))

                @op("same_pair %d %d" % (s, t))
                def _(s=s, t=t):
                    x, n, y = W.same_pair(real[s])
                    eq(n, v(s), "pair")
                    eq(y.id(), x.id(), "both ends of the pair")
                    put(m, t, y, o(s))

                @op("same_vec %d %d" % (s, t))
                def _(s=s, t=t):
                    q = W.same_vec([real[s], real[t]] if m.slots[t] else [real[s]])
                    eq([x.id() for x in q], [o(s), o(t)] if m.slots[t] else [o(s)], "vector of shared objects")
                    put(m, t, q[0], o(s))
            else:
                @op("copy %d %d" % (s, t))
                def _(s=s, t=t):
                    put(m, t, W.echo(real[s]), m.new(v(s)))

                @op("copy_ref %d %d" % (s, t))
                def _(s=s, t=t):
                    put(m, t, W.echo_ref(real[s]), m.new(v(s)))

                @op("copy_opt %d %d" % (s, t))
                def _(s=s, t=t):
                    put(m, t, W.echo_opt(real[s]), m.new(v(s)))

                @op("copy_pair %d %d" % (s, t))
                def _(s=s, t=t):
                    a, b = m.new(v(s)), m.new(v(s))
                    x, n, y = W.echo_pair(real[s])
                    eq(n, v(s), "pair")
                    eq(x.id(), a, "first of the pair")
                    eq(y.id(), b, "last of the pair")
                    put(m, t, y, b)

                @op("copy_vec %d %d" % (s, t))
                def _(s=s, t=t):
                    src = [s, t] if m.slots[t] else [s]
                    ids = [m.new(v(x)) for x in src]
                    q = W.echo_vec([real[x] for x in src])
                    eq([x.id() for x in q], ids, "vector of objects")
                    put(m, t, q[0], ids[0])
            if m.slots[t] and (o(s) != o(t) or not MUT):
                @op("two %d %d" % (s, t))
                def _(s=s, t=t):
                    eq(W.two(real[s], real[t]), v(s) * 10 + v(t), "two references")
                    eq(real[s].other(real[t]), v(s) * 10 + v(t), "receiver and reference")
                if MUT:
                    @op("move %d %d" % (s, t))
                    def _(s=s, t=t):
                        eq(W.swap(real[s], real[t]), v(s) * 10 + v(t), "two mutable references")
                        m.val[o(s)], m.val[o(t)] = m.val[o(t)], m.val[o(s)]
        if ARC:
            @op("hold %d" % s)
            def _(s=s):
                W.hold(real[s])
                m.hold = o(s)

            @op("hold_ref %d" % s)
            def _(s=s):
                W.hold_ref(real[s])
                m.hold = o(s)
    if m.hold is not None:
        @op("drop_hold")
        def _():
            W.drop_hold()
            m.hold = None

        @op("hold_read")
        def _():
            eq(W.hold_get(), m.val[m.hold], "value seen by Rust")
        for x in VALS:
            @op("hold_set %d" % x)
            def _(x=x):
                W.hold_set(x)
                m.val[m.hold] = x
        for s in S:
            @op("give %d" % s)
            def _(s=s):
                if ARC:
                    put(m, s, W.give(), m.hold)
                else:
                    put(m, s, W.take(), m.hold)
                    m.hold = None
    else:
        @op("give_none")
        def _():
            eq(W.give() if ARC else W.take(), None, "empty holder")
    return out


steps = 0
nviol = 0


def verify(m):
    live = 0
    for o in m.live():
        live |= 1 << o
    eq(W.born(), m.born, "objects created")
    eq(W.live(), live, "objects alive")
    e = W.errors()
    if e:
        raise Bad(e)
    for s in range(NS):
        if m.slots[s]:
            eq(real[s].id(), m.slots[s][1], "object in slot %d" % s)
            eq(real[s].get(), m.val[m.slots[s][1]], "value in slot %d" % s)


def fresh():
    for s in range(NS):
        real[s] = None
    W.drop_hold()
    if W.live():
        raise Bad("objects alive after everything is gone: %x" % W.live())
    W.reset()
    return World()


def run(path, check_all=False):
    global steps, nviol
    m = fresh()
    k = 0
    try:
        for k, name in enumerate(path):
            f = dict(ops(m))[name]
            f()
            if check_all or k == len(path) - 1:
                verify(m)
            steps += 1
    except Exception as e:
        nviol += 1
        if nviol < 15:
            print("VIOL\t%s\t%s: %s\t%s" % (path[k].split()[0], type(e).__name__, str(e).replace("\n", "\\n").replace("\t", " "), "; ".join(path[:k + 1])))
        for s in range(NS):
            real[s] = None
        W.drop_hold()
        W.reset()
        return None
    return m


real.extend([None] * NS)
seq = 0
# every reachable state, every operation out of each
start = World()
seen = {start.canon(): []}
todo = [[]]
for path in todo:
    m = run(path)
    if m is None:
        continue
    for name, _ in ops(m):
        p = path + [name]
        m2 = run(p)
        seq += 1
        if m2 is None:
            continue
        c = m2.canon()
        if c not in seen:
            seen[c] = p
            todo.append(p)
            print("STATE\t%s" % (c,))


# every sequence to the depth
def deep(path, d):
    global seq
    m = run(path, True) if path else World()
    if m is None:
        return
    seq += 1
    if d:
        for name in [n for n, _ in ops(m)]:
            deep(path + [name], d - 1)


deep([], DEPTH)
try:
    fresh()
except Bad as e:
    print("VIOL\tend\t%s\t-" % e)
print("SAMPLE\t%s" % "; ".join(todo[-1]))
print("STATS\t%s\tsteps=%d\tseq=%d\tstates=%d" % (KIND, steps, seq, len(seen)))
