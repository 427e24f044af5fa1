"""Harness registry and the helpers that harnesses use. A harness is a plain Python function of a context; it runs
in two modes: with a symbolic context (inputs are solver terms, checks are proof obligations) and with a concrete
context under the project's own interpreter (inputs are the solver's witness values), for replay and validation."""

REGISTRY = {}       # name -> Harness


class Harness(object):
    def __init__(self, name, prop, fn, quick, thorough, reach, bounds):
        self.name = name
        self.prop = prop
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.reach = reach
        self.bounds = bounds
        self.module = fn.__module__.split('.h_')[-1]


def harness(prop, name=None, quick=None, thorough=None, reach=(), bounds='', **params):
    """params: keyword -> value passed on to the function (fixed for this registration)"""
    def deco(fn):
        n = name or fn.__name__

        def run(ctx):
            return fn(ctx, **params)
        run.__module__ = fn.__module__
        REGISTRY[n] = Harness(n, prop, run, quick or {}, thorough or {}, reach, bounds)
        return fn
    return deco


class Outcome(object):
    def __init__(self, ok, value, exc):
        self.ok = ok
        self.value = value
        self.exc = exc

    def exc_name(self):
        return None if self.ok else type(self.exc).__name__

    def raised(self, *classes):
        return (not self.ok) and isinstance(self.exc, classes)


def be(value, n):
    """big-endian bytes of a value that fits"""
    return [(value >> (8 * i)) & 0xff for i in reversed(range(n))]


def num(data, start=0, n=None):
    """unsigned big-endian number in data[start:start+n]"""
    v = list(data)
    v = v[start:] if n is None else v[start:start + n]
    r = 0
    for b in v:
        r = (r << 8) | b
    return r


def bits(byte, hi, lo):
    """bits hi..lo of a byte"""
    return (byte >> lo) & ((1 << (hi - lo + 1)) - 1)


class RecordingExecuter(object):
    """Stands for any command executer: records each command it is given, in order, and answers with `reply`
    (a value, an exception to raise, or a function of the command)."""

    def __init__(self, reply=None):
        self.commands = []
        self.reply = reply

    def call(self, command):
        self.commands.append(command)
        at('answering')
        r = self.reply
        if callable(r):
            r = r(command)
        if isinstance(r, BaseException):
            raise r
        return r


class Failing(object):
    """an executer whose device is not there"""

    def call(self, command):
        raise IOError('no device')


def run_command(cmd, executer):
    from infi.asi.coroutines.sync_adapter import sync_wait
    b = HOOK[0]
    if b is not None:
        cmd = b.made(cmd, sync_wait)
    return sync_wait(cmd.execute(executer))


# ------------------------------------------------------------------------------------------------------------------
# Every harness decides what one use of the code does. That the same holds when the code has been, or is being, used
# for something else is decided by running a harness beside another one: the other one runs before it, between making
# and executing its command, while its command is being answered, or before its result is looked at.
POINTS = ('start', 'made', 'answering', 'returned', 'reused', 'failed before')
HOOK = [None]


def at(point):
    if HOOK[0] is not None:
        HOOK[0].at(point)


class Other(object):
    """the context of the harness that runs beside: inputs have other names, nothing is checked"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.thorough = False

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def int(self, name, lo, hi):
        return self.ctx.int('other.' + name, lo, hi)

    def bool(self, name):
        return self.ctx.bool('other.' + name)

    def bytes(self, name, n):
        return self.ctx.bytes('other.' + name, n)

    def blob(self, name, lo, hi):
        return self.ctx.blob('other.' + name, lo, hi)

    def choice(self, name, options):
        return self.ctx.choice('other.' + name, options)

    def pick(self, name, lo, hi):
        return self.ctx.pick('other.' + name, lo, hi)

    def reach(self, label):
        pass

    def observe(self, label, value):
        pass

    def check(self, cond, label, known=None):
        pass

    def eq(self, actual, expected, label, known=None):
        pass

    def fail(self, label, known=None):
        pass


class Beside(object):
    def __init__(self, ctx, point, other, how):
        self.ctx = ctx
        self.point = point
        self.other = other
        self.how = how
        self.fired = False
        self.inside = False
        self.commands = []          # those of the other harness, after they were executed

    def at(self, point):
        if point == self.point and not self.fired and not self.inside:
            self.run()

    def run(self):
        self.fired = True
        self.inside = True
        try:
            self.ctx.aside(self.how, self.other.fn, Other(self.ctx))
        finally:
            self.inside = False

    def made(self, cmd, sync_wait):
        if self.inside:
            self.commands.append(cmd)
            return cmd
        if self.point == 'reused' and not self.fired:
            # the object of an earlier command is given the values of this one and executed again
            self.run()
            same = [c for c in self.commands if type(c) is type(cmd)]
            self.ctx.assume(bool(same))
            vars(same[-1]).update(vars(cmd))
            return same[-1]
        if self.point == 'failed before' and not self.fired:
            self.fired = True
            try:
                sync_wait(cmd.execute(Failing()))
            except Exception:
                pass
            return cmd
        self.at('made')
        return cmd


def beside(outer, partners):
    def run(ctx):
        point = ctx.choice('beside.point', POINTS)
        other = partners[0] if point == 'failed before' else ctx.choice('beside.other', partners)
        how = 0 if point == 'failed before' else ctx.choice('beside.how', (0, 1))
        b = Beside(ctx, point, other, how)
        shape = 0 if ctx.thorough else ctx.choice('beside.shape', (0, 1, 2))

        key = (point, other.name, how, shape)
        start = ctx.mark()
        HOOK[0] = b
        try:
            b.at('start')
            ctx.directed(shape, outer.fn, ctx)
        finally:
            HOOK[0] = None
        if b.fired:
            if not ctx.thorough:
                ctx.commit(start)
            return
        # this path does not get to the point; when the first ones do not, it is taken that none does
        unfired[key] = unfired.get(key, 0) + 1
        if unfired[key] >= 6:
            ctx.commit(start)
        ctx.assume(False)
    unfired = {}
    run.__module__ = outer.fn.__module__
    return run


ALONE = ('coro', 'queue', 'platform', 'commands')       # their programs and histories consist of many uses already
# so do these; or they differ in size only from another harness, which does run beside others
ALONE_TOO = ('asc_names', 'os_long', 'os_queued', 'win_long', 'win_history', 'win_queued', 'os_history', 'os_linux_adapter', 'os_aix_validity', 'ses_status_many', 'ses_descriptors', 'ses_two_pages',
             'ses_configuration', 'unmap_255', 'unmap_16', 'unmap_many', 'designator_many', 'rtpg_many_groups',
             'pr_in_many_keys', 'pr_in_full_status_many', 'report_luns_many', 'sense_many_descriptors', 'read_reply')
MANY = ALONE_TOO[-8:]


def add_beside():
    """for every harness, one that runs it beside others of the property"""
    hs = sorted((h for h in REGISTRY.values() if h.module not in ALONE), key=lambda h: h.name)
    for h in hs:
        if h.name.startswith(ALONE_TOO):
            continue
        group = [g for g in hs if g.prop == h.prop and g.module == h.module and not g.name.startswith(MANY)]
        i = group.index(h)
        partners = (group[i:] + group[:i])[:4]
        n = 'beside_' + h.name
        REGISTRY[n] = Harness(n, h.prop, beside(h, partners), dict(seconds=150.0), dict(seconds=300.0), (),
                              'beside one of %s, at one of the points %s; %s' % (
                                  ', '.join(g.name for g in partners), ', '.join(POINTS), h.bounds))
