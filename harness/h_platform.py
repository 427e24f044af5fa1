"""Opening a device on each platform, the context managers, the read timeout of Unix files, and letting other greenlets
run."""
from .api import harness
from . import env
from .h_os import SgDriver, UscsiDriver, DkDriver, Answer, run
from .h_win32 import Kernel

PLATFORM_NAMES = {'linux': 'linux-ubuntu-x64', 'solaris': 'solaris-11-sparc', 'aix': 'aix-7-power', 'windows': 'windows-2019-x64'}


class Unix(env.Environment):
    """files of a Unix system: what is open, and what was done to it"""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.open = {}
        self.opened = []
        self.closed = []
        self.open_fails = 0
        self.close_fails = 0
        self.next = 7

    def platform(self):
        return self.name

    def os_open(self, path, flags, mode=0o777):
        if self.open_fails:
            raise OSError(self.open_fails, 'open')
        fd = self.next
        self.next += 1
        self.opened.append((path, flags))
        self.open[fd] = path
        return fd

    def os_close(self, fd):
        self.ctx.check(fd in self.open, 'only an open file is closed')
        self.open.pop(fd, None)
        self.closed.append(fd)
        if self.close_fails:
            raise OSError(self.close_fails, 'close')


@harness('platforms', reach=('linux', 'solaris', 'aix', 'windows', 'unsupported'), quick=dict(seconds=60),
         bounds='every supported platform, and other platform names of up to 8 letters (symbolic); every errno of open')
def platform_dispatch(ctx):
    """each platform has its files and its executer; other platforms are refused"""
    import os
    import infi.asi as asi
    from infi.asi.errors import AsiException
    name = ctx.choice('platform', ('linux', 'solaris', 'aix', 'windows', 'other'))
    if name == 'other':
        n = ctx.pick('length', 1, 8)
        letters = [ctx.int('c%d' % i, 97, 122) for i in range(n)]
        text = ''.join([chr(c) for c in letters])
        for p in ('linux', 'solaris', 'aix', 'windows'):
            ctx.assume(text != p)
        env.use(ctx, Unix(ctx, text + '-1-x64'))
        for f in (lambda: asi.create_os_file('/dev/x'), lambda: asi.create_platform_command_executer(None),
                  lambda: asi.create_async_os_file('/dev/x'), lambda: asi.create_os_async_reactor()):
            r = ctx.outcome(f)
            ctx.check(r.raised(AsiException), 'an unknown platform is refused')
        ctx.check(not ctx.env.opened, 'and nothing is opened')
        ctx.reach('unsupported')
        return
    if name == 'windows':
        k = env.use(ctx, Kernel(ctx))
        m = env.import_win32()
        f = ctx.outcome(lambda: asi.create_os_file('disk'))
        ctx.check(f.ok and type(f.value) is m.Win32File, 'a file of the platform')
        f = ctx.outcome(lambda: asi.create_async_os_file('disk'))
        ctx.check(f.ok and type(f.value) is m.Win32AsyncFile, 'an asynchronous file of the platform')
        x = ctx.outcome(lambda: asi.create_platform_command_executer(f.value, max_queue_size=3))
        ctx.check(x.ok and type(x.value) is m.Win32CommandExecuter and x.value.io is f.value, 'the executer of the platform')
        x = ctx.outcome(lambda: asi.create_os_async_reactor())
        ctx.check(x.ok and type(x.value) is m.Win32AsyncReactor, 'the reactor of the platform')
        ctx.check(len(k.opened) == 2, 'each file is opened once')
        ctx.reach(name)
        return
    e = env.use(ctx, Unix(ctx, PLATFORM_NAMES[name]))
    fails = ctx.choice('fails', (False, True)) and ctx.int('errno', 1, 133)
    e.open_fails = fails
    r = ctx.outcome(lambda: asi.create_os_file('/dev/x'))
    if fails:
        ctx.check(r.raised(OSError) and r.exc.errno == fails, 'a device that cannot be opened is an error, with its errno')
        return
    ctx.check(r.ok, 'opened')
    path, flags = e.opened[0]
    ctx.check(len(e.opened) == 1 and path == '/dev/x', 'the path given, once')
    ctx.check((flags & 3) == os.O_RDWR, 'for reading and writing')
    ctx.check(flags & (os.O_CREAT | os.O_TRUNC) == 0, 'nothing is created or truncated')
    # uscsi(7I) devices without medium open only without blocking
    ctx.check((flags & os.O_NONBLOCK != 0) == (name == 'solaris'), 'without blocking on Solaris')
    ctx.check(r.value.fd == 7, 'the descriptor that was opened')
    import importlib
    cls = {'linux': 'LinuxCommandExecuter', 'solaris': 'SolarisCommandExecuter', 'aix': 'AixCommandExecuter'}[name]
    cls = getattr(importlib.import_module('infi.asi.' + name), cls)
    timeout = ctx.int('timeout', 1, 100000)
    x = ctx.outcome(lambda: asi.create_platform_command_executer(r.value, timeout=timeout))
    ctx.check(x.ok and type(x.value) is cls and x.value.io is r.value, 'the executer of the platform')
    ctx.check(x.value.timeout == timeout, 'with the timeout given')
    for f in (lambda: asi.create_async_os_file('/dev/x'), lambda: asi.create_os_async_reactor()):
        ctx.check(ctx.outcome(f).raised(AsiException), 'there is no asynchronous I/O on this platform')
    ctx.reach(name)


class Broken(Exception):
    pass


class Killed(BaseException):
    """as GreenletExit, SystemExit and KeyboardInterrupt are"""


class Both(Unix):
    """a Unix system with a driver"""

    def __init__(self, ctx, name, driver):
        super(Both, self).__init__(ctx, name)
        self.driver = driver

    def __getattribute__(self, k):
        if k in ('os_read', 'os_write', 'select', 'poll_events', 'ioctl'):
            return getattr(self.driver, k)
        return object.__getattribute__(self, k)


CONTEXTS = {'linux_sg': ('linux', SgDriver), 'linux_dm': ('linux', SgDriver), 'solaris': ('solaris', UscsiDriver),
            'aix': ('aix', DkDriver), 'windows': ('windows', None)}


def executer_context(ctx, name):
    """the device is open inside the context and closed once when it is left, whatever happens inside"""
    from infi.asi import executers, SCSIReadCommand
    from infi.asi.errors import AsiException
    platform, driver = CONTEXTS[name]
    how = ctx.choice('how', ('normal', 'raises', 'is killed', 'is left', 'command fails', 'command is refused', 'open fails', 'close fails'))
    status = ctx.int('status', 1, 255) if how == 'command fails' else 0
    a = Answer(data=list(ctx.bytes('in', 2)), status=status, validity=1 if status else 0, sense=[0x70] + [0] * 17)
    if how == 'command is refused':
        a.oserror = ctx.int('errno', 1, 133)
    if platform == 'windows':
        e = env.use(ctx, Kernel(ctx, [a]))
        m = env.import_win32()
    else:
        e = env.use(ctx, Both(ctx, PLATFORM_NAMES[platform], driver(ctx, [a])))
    if how == 'open fails':
        e.open_fails = 13
    if how == 'close fails':
        e.close_fails = 5
    entered = []
    boom = {'is killed': Killed, 'is left': GeneratorExit}.get(how, Broken)()

    def use():
        with getattr(executers, name)('/dev/x') as x:
            entered.append(x)
            files = e.handles if platform == 'windows' else e.open
            ctx.check(len(files) == 1, 'the device is open in the context')
            if how in ('raises', 'is killed', 'is left'):
                raise boom
            return run(x, SCSIReadCommand(bytes(ctx.bytes('cdb', 6)), 2))
    r = ctx.outcome(use)
    ctx.reach(how)
    files = e.handles if platform == 'windows' else e.open
    if how == 'open fails':
        ctx.check((not r.ok) and not entered, 'a device that cannot be opened is an error')
        ctx.check(not e.closed, 'nothing is closed')
        return
    ctx.check(len(e.opened) == 1, 'opened once')
    if how == 'close fails':
        ctx.check(not r.ok, 'a failure to close is an error')
        return
    ctx.check(len(e.closed) == 1 and not files, 'the device is closed once')
    seen = e.seen if platform == 'windows' else e.driver.seen
    if how == 'normal':
        ctx.check(r.ok, 'a command that the device completed succeeds')
        if r.ok:
            ctx.eq(r.value, a.data, 'the data of the device')
        if name == 'linux_sg':
            ctx.check(seen[0]['timeout'] == 3000, 'three seconds on sg devices')
        elif name == 'linux_dm':
            ctx.check(seen[0]['timeout'] == 30000, 'thirty seconds on others')
            ctx.check(e.driver.ioctls == 1, 'by ioctl')
    elif how in ('raises', 'is killed', 'is left'):
        ctx.check((not r.ok) and r.exc is boom, 'an exception passes through the context')
    elif how == 'command fails':
        ctx.check(r.raised(AsiException), 'the error of the command passes through the context')
    else:
        ctx.check(not r.ok, 'the error of the system call passes through the context')


for _n in CONTEXTS:
    harness('platforms', name='executer_context[%s]' % _n, quick=dict(seconds=60), reach=(
        'normal', 'raises', 'is killed', 'is left', 'command fails', 'command is refused', 'open fails', 'close fails'),
        bounds='one read command of 2 bytes that succeeds, ends with any other SCSI status or any errno; an exception of any kind '
               'in the body; failures to open and to close', name_=None)(
        (lambda n: lambda ctx, name_: executer_context(ctx, n))(_n))


class Clock(env.Environment):
    """a descriptor that becomes readable at some time, or never"""

    def __init__(self, ctx, ready_at):
        self.ctx = ctx
        self.now = 0
        self.ready_at = ready_at
        self.reads = []
        self.polls = 0

    def time(self):
        return self.now

    def sleep(self, n):
        # in ticks of a second: sleeping takes some time, never less than asked
        self.polls += 1
        d = self.ctx.int('slept%d' % self.polls, 1, 30)
        self.now = self.now + d

    def select(self, r, w, x, timeout=None):
        ctx = self.ctx
        ctx.check(list(r) == [7], 'the file is waited for')
        # a greenlet-friendly wait never blocks
        if timeout is None or timeout > 0:
            self.blocked = True
        if ctx.is_true(self.now >= self.ready_at):
            return [7], [], []
        return [], [], []

    def poll_events(self, fds, timeout):
        return [(f, 1) for f in self.select(fds, [], [], timeout)[0]]

    def os_read(self, fd, n):
        ctx = self.ctx
        ctx.check(fd == 7, 'the file is read')
        ctx.check(self.now >= self.ready_at, 'only a readable file is read')
        self.reads.append(n)
        return b'x' * 3


@harness('platforms', reach=('read', 'timeout'), quick=dict(seconds=100), thorough=dict(seconds=300),
         bounds='a timeout of 1 to 60 seconds, a file that becomes readable at any second up to 100; polls that take any time '
                'from 1 to 30 seconds, at most 7 of them (12 thorough)')
def unix_read_timeout(ctx):
    """reading waits for the answer of the device, for as long as the timeout and not much longer"""
    from infi.asi.unix import UnixFile
    timeout = ctx.int('timeout', 1, 60)
    ready = ctx.int('ready', 0, 100)
    e = env.use(ctx, Clock(ctx, ready))
    e.blocked = False
    most = 12 if ctx.thorough else 7

    class Enough(Exception):
        pass
    real = e.sleep

    def sleep(n):
        if e.polls >= most:
            raise Enough()
        real(n)
    e.sleep = sleep
    f = UnixFile(7, timeout)
    r = ctx.outcome(lambda: f.read(88))
    if r.raised(Enough):
        return
    ctx.check(not e.blocked, 'other greenlets are not blocked')
    if r.ok:
        ctx.reach('read')
        ctx.eq(r.value, b'xxx', 'the answer is returned')
        ctx.check(e.reads == [88], 'read once, as much as asked')
        ctx.check(ctx.Or(e.polls == 0, ready <= timeout + 60), 'no answer is waited for without bound')
    else:
        ctx.reach('timeout')
        ctx.check(isinstance(r.exc, IOError), 'an input/output error')
        ctx.check(e.now > timeout, 'no timeout before its time')
        ctx.check(not e.reads, 'nothing is read')


@harness('platforms', reach=('default',), quick=dict(seconds=30), bounds='the default timeout; polls of exactly one second')
def unix_read_default_timeout(ctx):
    from infi.asi.unix import UnixFile
    ready = ctx.int('ready', 0, 200)
    e = env.use(ctx, Clock(ctx, ready))

    def sleep(n):
        e.polls += 1
        e.now = e.now + 1
    e.sleep = sleep
    r = ctx.outcome(lambda: UnixFile(7).read(88))
    ctx.reach('default')
    if r.ok:
        ctx.check(ready <= 62, 'an answer that never comes is not waited for')
    else:
        ctx.check(ready > 60, 'an answer within a minute is waited for')


@harness('platforms', reach=('read', 'timeout'), quick=dict(seconds=30), bounds='timeouts of 1 to 9 seconds (thorough: 1 to 130); polls of exactly one second')
def unix_read_own_timeout(ctx):
    """the timeout of each file is its own"""
    from infi.asi.unix import UnixFile
    timeout = ctx.int('timeout', 1, 130 if ctx.thorough else 9)
    ready = ctx.int('ready', 0, 150 if ctx.thorough else 20)
    other = ctx.int('other', 1, 9)
    e = env.use(ctx, Clock(ctx, ready))

    def sleep(n):
        e.polls += 1
        e.now = e.now + 1
    e.sleep = sleep
    f = UnixFile(7, timeout)
    UnixFile(8, other)                  # another file, whose timeout does not matter
    r = ctx.outcome(lambda: f.read(88))
    if r.ok:
        ctx.reach('read')
        ctx.check(ready <= timeout + 2, 'an answer is not waited for longer than the timeout of the file')
    else:
        ctx.reach('timeout')
        ctx.check(isinstance(r.exc, IOError), 'an input/output error')
        ctx.check(ready > timeout, 'an answer within the timeout of the file is waited for')


@harness('platforms', reach=('returns', 'raises'), quick=dict(seconds=30), bounds='functions of up to two arguments that return or raise')
def gevent_friendly_calls(ctx):
    """other greenlets get their turn after each blocking call, which is otherwise unchanged"""
    import infi.asi as asi
    a, b = ctx.int('a', -100, 100), ctx.int('b', -100, 100)
    log = []
    boom = Broken()
    fails = ctx.choice('fails', (False, True))

    def f(x, y=None):
        log.append(('call', x, y))
        if fails:
            raise boom
        return x + 1
    old = asi._gevent_friendly_sleep
    asi._gevent_friendly_sleep = lambda *args: log.append(('sleep',) + args)
    try:
        r = ctx.outcome(lambda: asi.gevent_friendly(f)(a, y=b))
    finally:
        asi._gevent_friendly_sleep = old
    ctx.check(len(log) >= 1 and log[0][0] == 'call', 'the function is called')
    ctx.check(log[0][1] == a, 'with its arguments')
    ctx.check(log[0][2] == b, 'with its arguments')
    ctx.check(sum(l[0] == 'call' for l in log) == 1, 'once')
    if fails:
        ctx.reach('raises')
        ctx.check((not r.ok) and r.exc is boom, 'its exception is raised')
    else:
        ctx.reach('returns')
        ctx.check(r.ok and r.value == a + 1, 'its result is returned')
        ctx.check(len(log) >= 2, 'other greenlets get their turn')
