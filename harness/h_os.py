"""The operating-system layers: what a command becomes on its way to the driver of each platform, and what each answer
of the driver becomes for the caller. The driver is a stand-in that reads and writes the control block by the
layout of the platform's header file (offsets below), never through the structures of the code under test."""
from .api import harness, be, num, bits, Outcome
from . import env

SENSE_MIN = 18


def le(raw, off, n):
    r = 0
    for i in range(n):
        r = r | (raw[off + i] << (8 * i))
    return r


def sle(raw, off, n):
    v = le(raw, off, n)
    return v - (1 << (8 * n)) if v >= 1 << (8 * n - 1) else v


def put(raw, off, n, value):
    for i in range(n):
        raw[off + i] = (value >> (8 * i)) & 0xff


def peek(address, n):
    import ctypes
    return list(bytes(ctypes.string_at(address, n))) if n else []


def poke(address, values):
    import ctypes
    if values:
        ctypes.memmove(address, bytes(values), len(values))


class Answer(object):
    """what the driver will answer to one command"""

    def __init__(self, status=0, host=0, driver=0, data=None, sense=None, oserror=None, reason=0, rqstatus=0, validity=0,
                 adapter=0, einval=0, moved=None):
        self.__dict__.update(locals())


class Driver(env.Environment):
    """common part: one answer per command, what was asked is kept"""
    fd = 7

    def __init__(self, ctx, answers):
        self.ctx = ctx
        self.answers = list(answers)
        self.seen = []
        self.inbox = []
        self.ioctls = 0

    # sg: write submits, read collects
    def os_write(self, fd, data):
        self.ctx.check(fd == self.fd, 'the device that was opened is used')
        raw = list(bytes(data))
        a = self.serve(raw)
        if a is not None and a.oserror:
            raise OSError(a.oserror, 'write')
        self.inbox.append(raw)
        return len(raw)

    def os_read(self, fd, n):
        self.ctx.check(fd == self.fd, 'the device that was opened is used')
        raw = self.inbox.pop(0)
        return bytes(raw[:n])

    def select(self, r, w, x, timeout=None):
        return (list(r) if self.inbox else []), [], []

    def poll_events(self, fds, timeout):
        return [(f, 1) for f in fds] if self.inbox else []

    # ioctl: a bytes object is copied in and the result handed back, a buffer or an address is changed in place
    def ioctl(self, fd, request, arg=0, mutate_flag=True):
        import ctypes
        self.ctx.check(fd == self.fd, 'the device that was opened is used')
        self.ctx.check(request == self.REQUEST, 'the ioctl of the platform')
        self.ioctls += 1
        if isinstance(arg, int):
            raw, how = peek(arg, self.SIZE), 'address'
        elif isinstance(arg, bytes):
            raw, how = list(arg), 'bytes'
        elif isinstance(arg, bytearray):
            raw, how = list(arg), 'buffer'
        else:
            raw, how = peek(ctypes.addressof(arg), self.SIZE), 'buffer'
            arg = ctypes.addressof(arg)
        a = self.serve(raw)
        if how == 'bytes':
            if a is not None and a.oserror:
                raise OSError(a.oserror, 'ioctl')
            return bytes(raw)
        if isinstance(arg, bytearray):
            arg[:] = bytes(raw)
        else:
            poke(arg, raw[:self.SIZE])
        if a is not None and a.oserror:
            raise OSError(a.oserror, 'ioctl')
        return 0


class SgDriver(Driver):
    """struct sg_io_hdr, LP64"""
    REQUEST = 0x2285
    SIZE = 88

    def serve(self, raw):
        ctx = self.ctx
        ctx.check(len(raw) == 88, 'size of the control block')
        ctx.check(le(raw, 0, 4) == ord('S'), 'interface id')
        direction = sle(raw, 4, 4)
        n = le(raw, 12, 4)
        seen = {
            'cdb': peek(le(raw, 24, 8), raw[8]), 'direction': {-1: 'none', -2: 'out', -3: 'in'}.get(direction),
            'length': n, 'timeout': le(raw, 40, 4), 'pack_id': sle(raw, 48, 4), 'sense_size': raw[9],
            'data': peek(le(raw, 16, 8), n) if direction == -2 else None}
        ctx.check(le(raw, 10, 2) == 0, 'no scatter list')
        self.seen.append(seen)
        if not self.answers:
            return None
        a = self.answers.pop(0)
        if a.oserror:
            return a
        moved = n if a.moved is None else a.moved
        if a.data is not None and direction == -3:
            poke(le(raw, 16, 8), a.data[:n][:moved])
        put(raw, 72, 4, n - moved)
        if a.sense is not None:
            s = a.sense[:raw[9]]
            poke(le(raw, 32, 8), s)
            raw[67] = len(s)
        raw[64] = a.status
        raw[65] = (a.status >> 1) & 0x1f
        put(raw, 68, 2, a.host)
        put(raw, 70, 2, a.driver)
        return a


class UscsiDriver(Driver):
    """struct uscsi_cmd, LP64 little-endian"""
    REQUEST = (4 << 8) | 201
    SIZE = 64

    def serve(self, raw):
        ctx = self.ctx
        ctx.check(len(raw) >= 64, 'size of the control block')
        flags = le(raw, 0, 4)
        n = le(raw, 24, 8)
        seen = {'cdb': peek(le(raw, 8, 8), raw[40]), 'length': n,
                'direction': 'in' if flags & 8 else ('out' if n else 'none'), 'timeout': le(raw, 6, 2),
                'sense_size': raw[41], 'flags': flags,
                'data': peek(le(raw, 16, 8), n) if not flags & 8 else None}
        ctx.check((flags & 0x10000) != 0, 'request sense is enabled')
        self.seen.append(seen)
        a = self.answers.pop(0)
        if a.oserror:
            return a
        moved = n if a.moved is None else a.moved
        if a.data is not None and flags & 8:
            poke(le(raw, 16, 8), a.data[:n][:moved])
        put(raw, 32, 8, n - moved)
        if a.sense is not None:
            poke(le(raw, 48, 8), a.sense[:raw[41]])
            raw[43] = raw[41] - len(a.sense[:raw[41]])
        raw[4] = a.status
        raw[5] = a.reason
        raw[42] = a.rqstatus
        return a


class DkDriver(Driver):
    """struct sc_passthru, LP64 (fields of the header file, natural alignment)"""
    REQUEST = 23
    SIZE = 168
    use_libc = False

    def serve(self, raw):
        ctx = self.ctx
        n = le(raw, 24, 8)
        flags = raw[10]
        seen = {'cdb': raw[64:64 + le(raw, 14, 2)], 'length': n, 'timeout': le(raw, 20, 4),
                'direction': 'in' if flags & 1 else ('out' if n else 'none'), 'sense_size': le(raw, 18, 2),
                'data': peek(le(raw, 48, 8), n) if not flags & 1 else None}
        self.seen.append(seen)
        a = self.answers.pop(0)
        moved = n if a.moved is None else a.moved
        if a.data is not None and flags & 1 and not a.oserror:
            poke(le(raw, 48, 8), a.data[:n][:moved])
        put(raw, 160, 8, n - moved)
        if a.sense is not None:
            poke(le(raw, 56, 8), a.sense[:le(raw, 18, 2)])
        raw[2] = a.validity
        raw[3] = a.status
        raw[5] = a.adapter
        put(raw, 16, 2, a.einval)
        return a

    def has_library(self, name):
        return self.use_libc and name == 'libc.a(shr_64.o)'

    def foreign(self, lib, name, args):
        if name != 'ioctl':
            raise OSError(38, name)
        fd, request, arg = [getattr(x, 'value', x) for x in args]
        try:
            self.errno = 0
            return self.ioctl(fd, request, arg)
        except OSError as e:
            self.errno = e.errno
            return -1


# ------------------------------------------------------------------------------------------------------ commands
def command(ctx, kind, n, cdb_size, tag=''):
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    cdb = list(ctx.bytes('cdb' + tag, cdb_size))
    if kind == 'read':
        return SCSIReadCommand(bytes(cdb), n), cdb, None
    data = list(ctx.bytes('out' + tag, n))
    return SCSIWriteCommand(bytes(cdb), bytes(data)), cdb, data


def sense_bytes(ctx, tag=''):
    b = list(ctx.bytes('sense' + tag, 6))
    return [0x70, 0, 6] + b[:4] + [10] + [0] * 4 + [0x29, 0] + [b[4], 0, b[5], 0]


def run(executer, cmd):
    from infi.asi.coroutines.sync_adapter import sync_wait
    return sync_wait(executer.call(cmd))


def check_request(ctx, seen, kind, n, cdb, out, timeout):
    """the driver was asked for this command and nothing else"""
    ctx.check(len(seen) == 1, 'one request per command')
    if len(seen) != 1:
        return
    s = seen[0]
    ctx.eq(s['cdb'], cdb, 'the CDB reaches the driver unaltered')
    ctx.check(s['length'] == n, 'transfer length')
    if n:
        ctx.check(s['direction'] == ('in' if kind == 'read' else 'out'), 'transfer direction')
    else:
        ctx.check(s['direction'] != 'in', 'a command without data does not ask for any')
    if kind == 'write':
        ctx.eq(s['data'] or [], out, 'the data reaches the driver unaltered')
    ctx.check(s['sense_size'] >= SENSE_MIN, 'room for sense data')
    if timeout is not None:
        ctx.check(s['timeout'] == timeout, 'the timeout of the executer')


def linux(ctx, variant, answers, timeout=None, **kw):
    from infi.asi.unix import UnixFile
    import infi.asi.linux as m
    d = env.use(ctx, SgDriver(ctx, answers))
    if timeout is not None:
        kw['timeout'] = timeout
    cls = m.LinuxCommandExecuter if variant == 'sg' else m.LinuxIoctlCommandExecuter
    return d, cls(UnixFile(7), **kw)


def solaris(ctx, answers, timeout=None, **kw):
    from infi.asi.unix import UnixFile
    import infi.asi.solaris as m
    d = env.use(ctx, UscsiDriver(ctx, answers))
    if timeout is not None:
        kw['timeout'] = timeout
    return d, m.SolarisCommandExecuter(UnixFile(7), **kw)


def aix(ctx, answers, timeout=None, libc=False, **kw):
    from infi.asi.unix import UnixFile
    import infi.asi.aix as m
    d = env.use(ctx, DkDriver(ctx, answers))
    d.use_libc = libc
    if timeout is not None:
        kw['timeout'] = timeout
    return d, m.AixCommandExecuter(UnixFile(7), **kw)


PLATFORMS = {
    'linux_sg': lambda ctx, a, t=None, **kw: linux(ctx, 'sg', a, t, **kw),
    'linux_ioctl': lambda ctx, a, t=None, **kw: linux(ctx, 'ioctl', a, t, **kw),
    'solaris': solaris,
    'aix': aix,
    'aix_libc': lambda ctx, a, t=None, **kw: aix(ctx, a, t, True, **kw),
}
PROP = {'linux_sg': 'linux', 'linux_ioctl': 'linux', 'solaris': 'solaris-aix', 'aix': 'solaris-aix',
        'aix_libc': 'solaris-aix'}


def os_good(ctx, platform):
    """a command that succeeds: the driver gets the command, the caller gets the driver's data"""
    kind = ctx.choice('kind', ('read', 'write'))
    n = ctx.choice('n', (0, 1, 5, 9) if not ctx.thorough else (0, 1, 2, 5, 9, 64))
    size = ctx.choice('cdb_size', (6, 10, 12, 16))
    timeout = ctx.choice('timeout', (None, 1)) and ctx.int('seconds', 1, 30000)
    cmd, cdb, out = command(ctx, kind, n, size)
    reply = list(ctx.bytes('in', n)) if kind == 'read' else None
    d, executer = PLATFORMS[platform](ctx, [Answer(data=reply)], timeout)
    default = {'linux_sg': 30000, 'linux_ioctl': 30000}.get(platform, 30)
    r = ctx.outcome(lambda: run(executer, cmd))
    ctx.check(r.ok, 'a command that the device completed succeeds')
    check_request(ctx, d.seen, kind, n, cdb, out, default if timeout is None else timeout)
    if not r.ok:
        return
    ctx.reach(kind)
    if kind == 'read' and n:
        ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
    else:
        ctx.check(r.value is None, 'no data')
    ctx.check(executer.is_queue_empty(), 'nothing is left pending')
    ctx.observe('value', r.value)


for _p in PLATFORMS:
    harness(PROP[_p], name='os_good[%s]' % _p, reach=('read', 'write'), quick=dict(seconds=150), thorough=dict(seconds=300),
            bounds='reads and writes of 0, 1, 5 and 9 bytes (2 and 64 thorough) with every content, CDBs of 6, 10, 12 and '
                   '16 bytes with every content, default timeout and 1..30000', platform=_p)(os_good)


def is_async_error(ctx, e):
    from infi.asi.errors import AsiException
    return isinstance(e, AsiException)


def os_status(ctx, platform):
    """any SCSI status: GOOD is success, CHECK CONDITION carries the sense bytes, anything else is an error"""
    from infi.asi.errors import AsiException, AsiSCSIError, AsiCheckConditionError, AsiReservationConflictError
    status = ctx.int('status', 0, 255)
    sense = sense_bytes(ctx)
    reply = list(ctx.bytes('in', 2))
    # DK_PASSTHRU tells when the status is valid
    a = Answer(status=status, data=reply, sense=sense)
    if platform.startswith('aix'):
        ctx.assume(status != 0)
        a.validity = 1
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    d, executer = PLATFORMS[platform](ctx, [a])
    r = ctx.outcome(lambda: run(executer, cmd))
    ctx.check(executer.is_queue_empty(), 'nothing is left pending')
    if r.ok:
        ctx.reach('good')
        ctx.check(status == 0, 'no status but GOOD is a success')
        ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
        return
    ctx.check(status != 0, 'GOOD is a success')
    ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
    if isinstance(r.exc, AsiCheckConditionError):
        ctx.reach('check')
        ctx.check((status & 2) != 0, 'only a check condition is reported as one')
        ctx.eq(r.exc.sense_buffer[:SENSE_MIN], sense, 'the sense bytes of the device')
        ctx.check(r.exc.sense_obj is not None and r.exc.sense_obj.sense_key == 'UNIT_ATTENTION', 'decoded')
    else:
        ctx.reach('other')
        ctx.check(status != 2, 'a check condition is reported as one')
        if platform.startswith('linux'):
            if isinstance(r.exc, AsiReservationConflictError):
                ctx.check(status == 0x18, 'only a reservation conflict is reported as one')
            else:
                ctx.check(status != 0x18, 'a reservation conflict is reported as one')
    ctx.observe('error', r.exc)


for _p in PLATFORMS:
    harness(PROP[_p], name='os_status[%s]' % _p, reach=('check', 'other') + (() if _p.startswith('aix') else ('good',)),
            quick=dict(seconds=150), thorough=dict(seconds=300),
            bounds='every SCSI status byte, sense data of 18 bytes with six of them symbolic', platform=_p)(os_status)


@harness('linux', reach=('good', 'error', 'sense'), quick=dict(seconds=200), thorough=dict(seconds=400),
         bounds='every value of one of host status and driver status (16 bits each), the other zero or one of a few')
def os_linux_adapter(ctx):
    """errors of the host adapter and of the driver are not taken for success"""
    from infi.asi.errors import AsiException, AsiCheckConditionError
    variant = ctx.choice('variant', ('sg', 'ioctl'))
    which = ctx.choice('which', ('host', 'driver'))
    host = ctx.int('host', 0, 65535) if which == 'host' else ctx.choice('host_', (0, 1, 7))
    driver = ctx.int('driver', 0, 65535) if which == 'driver' else ctx.choice('driver_', (0, 6))
    status = ctx.choice('status', (0, 8))
    sense = sense_bytes(ctx)
    reply = list(ctx.bytes('in', 2))
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    d, executer = linux(ctx, variant, [Answer(status=status, host=host, driver=driver, data=reply, sense=sense)])
    r = ctx.outcome(lambda: run(executer, cmd))
    ctx.check(executer.is_queue_empty(), 'nothing is left pending')
    if r.ok:
        ctx.reach('good')
        ctx.check(ctx.And(status == 0, host == 0, (driver & 0x0f) == 0), 'an adapter or driver error is not a success')
        ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
        return
    ctx.reach('error')
    ctx.check(ctx.Or(status != 0, host != 0, driver != 0), 'a command without any error succeeds')
    ctx.check(isinstance(r.exc, AsiException), 'an error of this package')
    if isinstance(r.exc, AsiCheckConditionError):
        ctx.reach('sense')
        ctx.check((driver & 0x08) != 0, 'no sense data is made up')
        ctx.eq(r.exc.sense_buffer[:SENSE_MIN], sense, 'the sense bytes of the device')
    else:
        ctx.check((driver & 0x0f) != 0x08, 'sense data that the driver announces is delivered')


@harness('linux', reach=('known', 'unknown'), quick=dict(seconds=100), bounds='a response with any 32-bit packet id and any status byte')
def os_linux_unknown_packet(ctx):
    """a response that belongs to no pending command is an error and disturbs no other command"""
    from infi.asi.errors import AsiException, AsiInternalError
    from infi.asi.coroutines.sync_adapter import sync_wait
    other = ctx.int('packet', -2 ** 31, 2 ** 31 - 1)
    status = ctx.choice('status', (0, 2, 8))
    reply = list(ctx.bytes('in', 2))
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    d, executer = linux(ctx, 'sg', [Answer(data=reply)])
    got = []
    sync_wait(executer.send(cmd, lambda data, exc: got.append((data, exc))))
    real = d.inbox.pop(0)
    mine = d.seen[0]['pack_id']
    stray = list(real)
    put(stray, 48, 4, other)
    stray[64] = status
    if ctx.is_true(other == mine):
        ctx.reach('known')
        return
    d.inbox.append(stray)
    d.inbox.append(real)
    r = ctx.outcome(lambda: sync_wait(executer.wait()))
    ctx.check(r.raised(AsiInternalError), 'a response to nobody is an internal error')
    ctx.check(len(got) == 0, 'nobody is called back for it')
    r = ctx.outcome(lambda: sync_wait(executer.wait()))
    ctx.check(r.ok and len(got) == 1, 'the pending command is still answered')
    if len(got) == 1:
        ctx.reach('unknown')
        ctx.check(got[0][1] is None, 'with success')
        ctx.eq(got[0][0], reply, 'with its data')


def prefix_only(ctx, got, expected, what):
    """got begins with what the device delivered, the rest of the buffer is empty"""
    got = list(got)
    ctx.check(len(got) >= len(expected), what)
    ctx.eq(got[:len(expected)], expected, what)
    ctx.eq(got[len(expected):], [0] * (len(got) - len(expected)), 'and nothing of an earlier command')


def os_history(ctx, platform):
    """what happened to one command has no influence on the next"""
    from infi.asi.errors import AsiException, AsiCheckConditionError
    answers, cmds = [], []
    for i in range(3 if ctx.thorough else 2):
        how = ctx.choice('how%d' % i, ('good', 'short', 'check', 'short check', 'busy', 'oserror'))
        kind, n = ('read', 2) if how == 'short' else ctx.choice('kind%d' % i, (('read', 2), ('read', 0), ('write', 2)))
        cmd, cdb, out = command(ctx, kind, n, 6, str(i))
        reply = list(ctx.bytes('in%d' % i, n)) if kind == 'read' else None
        a = Answer(data=reply)
        if how == 'short':
            a.moved = 1
        elif how.endswith('check'):
            a.status, a.sense, a.validity = 2, sense_bytes(ctx, str(i)), 1
            if how == 'short check':
                a.sense = a.sense[:8]
                a.sense[7] = 0
        elif how == 'busy':
            a.status, a.validity = 8, 1
        elif how == 'oserror':
            a.oserror = 5
        answers.append(a)
        cmds.append((how, kind, n, cmd, cdb, out, reply, a))
    d, executer = PLATFORMS[platform](ctx, answers)
    for how, kind, n, cmd, cdb, out, reply, a in cmds:
        del d.seen[:]
        r = ctx.outcome(lambda: run(executer, cmd))
        check_request(ctx, d.seen, kind, n, cdb, out, None)
        ctx.check(executer.is_queue_empty(), 'nothing is left pending')
        if how == 'good':
            ctx.check(r.ok, 'a command that the device completed succeeds')
            if r.ok:
                if kind == 'read' and n:
                    ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
                else:
                    ctx.check(r.value is None, 'no data')
        elif how == 'short':
            ctx.check(r.ok, 'a command that the device completed succeeds')
            if r.ok:
                prefix_only(ctx, r.value, reply[:1], 'the data of the device is returned unaltered')
        elif how.endswith('check'):
            ctx.check(r.raised(AsiCheckConditionError), 'a check condition')
            if r.raised(AsiCheckConditionError):
                prefix_only(ctx, r.exc.sense_buffer, a.sense, 'the sense bytes of the device')
        elif how == 'busy':
            ctx.check(r.raised(AsiException) and not r.raised(AsiCheckConditionError), 'a SCSI error')
        else:
            ctx.check(r.raised(AsiException, OSError), 'an error of the system call is an error')
        ctx.reach(how)


for _p in PLATFORMS:
    harness(PROP[_p], name='os_history[%s]' % _p, reach=('good', 'short', 'check', 'short check', 'busy', 'oserror'),
            quick=dict(seconds=200), thorough=dict(seconds=600), bounds='two commands (three thorough) on one executer, each a '
            'read of 0 or 2 bytes or a write of 2 that succeeds, completely or after one byte, ends with CHECK CONDITION and 18 or '
            '8 bytes of sense data, BUSY, or an error of the system call', platform=_p)(os_history)


def queued(ctx, executer, d, cmds, oserrors):
    """commands that are sent without waiting, or called, through a queue that has room for them"""
    from infi.asi.errors import AsiException, AsiCheckConditionError
    from infi.asi.coroutines.sync_adapter import sync_wait
    got = [[] for c in cmds]
    for i, (how, cmd, cdb, out, a) in enumerate(cmds):
        action = ctx.choice('action%d' % i, ('send', 'call', 'send and wait'))
        ctx.reach(action)
        if action == 'call':
            r = ctx.outcome(lambda: sync_wait(executer.call(cmd)))
            got[i].append((r.value, r.exc))
            continue
        r = ctx.outcome(lambda: sync_wait(executer.send(cmd, lambda data, exc, i=i: got[i].append((data, exc)))))
        if not r.ok:
            got[i].append((None, r.exc))
        if action == 'send and wait':
            sync_wait(executer.wait())
            ctx.check(executer.is_queue_empty(), 'nothing is left pending')
            ctx.check(all(len(g) == 1 for g in got[:i + 1]), 'each command is answered once')
    sync_wait(executer.wait())
    ctx.check(executer.is_queue_empty(), 'nothing is left pending')
    ctx.check(len(d.seen) == len(cmds), 'each command is sent once')
    for i, (how, cmd, cdb, out, a) in enumerate(cmds):
        ctx.eq(d.seen[i]['cdb'], cdb, 'the CDB reaches the driver unaltered')
        ctx.check(len(got[i]) == 1, 'each command is answered once')
        if len(got[i]) != 1:
            continue
        data, exc = got[i][0]
        if how == 'check':
            ctx.check(isinstance(exc, AsiCheckConditionError), 'a check condition')
            if isinstance(exc, AsiCheckConditionError):
                prefix_only(ctx, exc.sense_buffer, a.sense, 'the sense bytes of this command')
        elif how == 'oserror':
            ctx.check(isinstance(exc, oserrors), 'an error of the system call is an error')
        else:
            ctx.check(exc is None, 'success')
            if how == 'read':
                ctx.eq(data, a.data, 'the data of this command')
            else:
                ctx.check(not data, 'no data')
                ctx.eq(d.seen[i]['data'], out, 'the data reaches the driver unaltered')
        ctx.reach(how)


def queue_of(ctx, count):
    cmds = []
    for i in range(count):
        some = 4 - i if ctx.thorough else (4, 2, 1)[i]
        how = ctx.choice('how%d' % i, ('read', 'check', 'write', 'oserror')[:some])
        cmd, cdb, out = command(ctx, 'write' if how == 'write' else 'read', 2, 6, str(i))
        a = Answer(data=list(ctx.bytes('in%d' % i, 2)) if how == 'read' else None)
        if how == 'check':
            a.status, a.sense, a.validity = 2, sense_bytes(ctx, str(i)), 1
        elif how == 'oserror':
            a.oserror = 5
        cmds.append((how, cmd, cdb, out, a))
    return cmds


def os_queued(ctx, platform):
    from infi.asi.errors import AsiException
    cmds = queue_of(ctx, 3)
    d, executer = PLATFORMS[platform](ctx, [c[-1] for c in cmds], max_queue_size=3)
    queued(ctx, executer, d, cmds, (AsiException, OSError))


for _p in PLATFORMS:
    harness(PROP[_p], name='os_queued[%s]' % _p, reach=('read', 'check', 'write', 'oserror', 'send', 'call', 'send and wait'),
            quick=dict(seconds=200), thorough=dict(seconds=600), bounds='three commands with a queue of 3, '
            'each sent, sent and waited for, or called; the first reads, writes, ends with CHECK CONDITION or an error of the '
            'system call, the second reads or ends with CHECK CONDITION (or writes, thorough), the third reads (or, thorough, ends '
            'with CHECK CONDITION)', platform=_p)(os_queued)


def os_long(ctx, platform):
    """transfers beyond 64 KiB, and sense data of the 252 bytes that SPC-4 allows"""
    from infi.asi.errors import AsiCheckConditionError
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    what = ctx.choice('what', ('read', 'write', 'sense'))
    ends = list(ctx.bytes('ends', 4))
    cdb = list(ctx.bytes('cdb', 16))
    n = 65536 + 300
    pattern = ends[:2] + [(i * 7 + i // 256) & 0xff for i in range(n - 4)] + ends[2:]
    sense = [0x70, 0, 6] + ends + [244] + [0] * 4 + [0x29, 0] + [0] * 4 + [(i * 5 + 1) & 0xff for i in range(234 - 4)] + ends
    a = Answer(data=pattern if what == 'read' else None)
    if what == 'sense':
        a.status, a.sense, a.validity = 2, sense, 1
    d, executer = PLATFORMS[platform](ctx, [a])
    cmd = SCSIWriteCommand(bytes(cdb), bytes(pattern)) if what == 'write' else SCSIReadCommand(bytes(cdb), n)
    r = ctx.outcome(lambda: run(executer, cmd))
    check_request(ctx, d.seen, 'write' if what == 'write' else 'read', n, cdb, pattern, None)
    ctx.check(executer.is_queue_empty(), 'nothing is left pending')
    if what == 'sense':
        ctx.check(r.raised(AsiCheckConditionError), 'a check condition')
        if r.raised(AsiCheckConditionError):
            prefix_only(ctx, r.exc.sense_buffer, sense, 'the sense bytes of the device')
            ctx.check(r.exc.sense_obj is not None and r.exc.sense_obj.sense_key == 'UNIT_ATTENTION', 'decoded')
    else:
        ctx.check(r.ok, 'a command that the device completed succeeds')
        if r.ok and what == 'read':
            ctx.eq(list(r.value), pattern, 'the data of the device is returned unaltered')
    ctx.reach(what)


for _p in PLATFORMS:
    harness(PROP[_p], name='os_long[%s]' % _p, reach=('read', 'write', 'sense'), quick=dict(seconds=200), thorough=dict(seconds=300),
            bounds='transfers of 65836 bytes, the first and last two symbolic; 252 bytes of sense data, eight symbolic',
            platform=_p)(os_long)


@harness('solaris-aix', reach=('error', 'good'), quick=dict(seconds=100), bounds='every request sense status byte, every reason byte')
def os_solaris_request_sense(ctx):
    from infi.asi.errors import AsiSCSIError
    rq = ctx.int('rqstatus', 0, 255)
    reason = ctx.int('reason', 0, 255)
    status = ctx.choice('status', (0, 8))
    reply = list(ctx.bytes('in', 2))
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    d, executer = solaris(ctx, [Answer(status=status, rqstatus=rq, reason=reason, data=reply)])
    r = ctx.outcome(lambda: run(executer, cmd))
    if r.ok:
        ctx.reach('good')
        ctx.check(ctx.And(rq == 0, status == 0), 'a failed request sense is not a success')
        ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
    else:
        ctx.reach('error')
        ctx.check(ctx.Or(rq != 0, status != 0), 'a command without any error succeeds')
        ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')


def os_aix_validity(ctx, libc):
    """status validity, adapter status and invalid-argument reports of DK_PASSTHRU"""
    from infi.asi.errors import AsiException, AsiCheckConditionError, AsiSCSIError
    validity = ctx.int('validity', 0, 255)
    adapter = ctx.choice('adapter', (0, 1, 3, 15, 200))
    einval = ctx.choice('einval', (0, 1, 13, 24, 99))
    failed = ctx.choice('failed', (0, 22, 5))
    status = ctx.choice('status', (0, 2, 8, 0x18))
    sense = sense_bytes(ctx)
    reply = list(ctx.bytes('in', 2))
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    d, executer = aix(ctx, [Answer(status=status, validity=validity, adapter=adapter, einval=einval if failed else 0,
                                   oserror=failed, data=reply, sense=sense)], None, libc)
    r = ctx.outcome(lambda: run(executer, cmd))
    ctx.check(executer.is_queue_empty(), 'nothing is left pending')
    if r.ok:
        ctx.reach('good')
        ctx.check(failed == 0, 'a failed system call is not a success')
        ctx.check(validity == 0, 'a valid error status is not a success')
        ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
        return
    ctx.reach('error')
    ctx.check(ctx.Or(failed != 0, validity != 0), 'a command without any error succeeds')
    ctx.check(isinstance(r.exc, AsiException), 'an error of this package')
    if isinstance(r.exc, AsiCheckConditionError):
        ctx.reach('check')
        ctx.check(ctx.And(validity == 1, (status & 2) != 0), 'no sense data is made up')
        ctx.eq(r.exc.sense_buffer[:SENSE_MIN], sense, 'the sense bytes of the device')
    elif not failed:
        ctx.check(ctx.Not(ctx.And(validity == 1, status == 2)), 'a check condition is reported as one')


for _l in (False, True):
    harness('solaris-aix', name='os_aix_validity[%s]' % ('libc' if _l else 'fcntl'), reach=('good', 'error', 'check'),
            quick=dict(seconds=200), bounds='every status validity byte; adapter status, invalid-argument code, SCSI status and '
            'errno from a few values', libc=_l)(os_aix_validity)


class AnyOrder(SgDriver):
    """sg answers in any order"""
    reads = 0

    def os_read(self, fd, n):
        self.ctx.check(len(self.inbox) > 0, 'nobody waits for an answer when nothing is in flight')
        self.reads += 1
        raw = self.inbox.pop(self.ctx.pick('order%d' % self.reads, 0, len(self.inbox) - 1))
        return bytes(raw[:n])


def sg_in_flight(ctx, count):
    """several commands in flight through sg: each callback gets what the device did for its own command"""
    from infi.asi.errors import AsiCheckConditionError, AsiSCSIError
    from infi.asi.coroutines.sync_adapter import sync_wait
    from infi.asi.unix import UnixFile
    import infi.asi.linux as m
    answers, expected, got, cmds = [], [], [], []
    for i in range(count):
        how = ctx.choice('how%d' % i, ('read', 'write', 'check'))
        kind = 'write' if how == 'write' else 'read'
        cmd, cdb, out = command(ctx, kind, 2, 6, str(i))
        a = Answer(data=list(ctx.bytes('in%d' % i, 2)) if kind == 'read' else None)
        if how == 'check':
            a.status, a.sense = 2, sense_bytes(ctx, str(i))
        answers.append(a)
        cmds.append((how, cmd, cdb, out, a))
        got.append([])
    d = env.use(ctx, AnyOrder(ctx, answers))
    executer = m.LinuxCommandExecuter(UnixFile(7))
    for i, (how, cmd, cdb, out, a) in enumerate(cmds):
        if i == count - 1 and ctx.choice('last is a call', (False, True)):
            ctx.reach('call')
            r = ctx.outcome(lambda: sync_wait(executer.call(cmd)))
            got[i].append((r.value, r.exc))
        else:
            sync_wait(executer.send(cmd, lambda data, exc, i=i: got[i].append((data, exc))))
    sync_wait(executer.wait())
    ctx.check(len(d.seen) == count, 'each command is sent once')
    for i, (how, cmd, cdb, out, a) in enumerate(cmds):
        ctx.eq(d.seen[i]['cdb'], cdb, 'the CDB reaches the driver unaltered')
        ctx.check(len(got[i]) == 1, 'each command is answered once')
        if len(got[i]) != 1:
            continue
        data, exc = got[i][0]
        if how == 'check':
            ctx.check(isinstance(exc, AsiCheckConditionError), 'a check condition')
            if isinstance(exc, AsiCheckConditionError):
                ctx.eq(exc.sense_buffer[:SENSE_MIN], a.sense, 'the sense bytes of this command')
        else:
            ctx.check(exc is None, 'success')
            if how == 'read':
                ctx.eq(data, a.data, 'the data of this command')
            else:
                ctx.check(data is None, 'no data')
                ctx.eq(d.seen[i]['data'], out, 'the data reaches the driver unaltered')
        ctx.reach(how)


for _c in (2, 3):
    harness('command-queue', name='sg_in_flight[%d]' % _c, reach=('read', 'write', 'check', 'call'),
            quick=dict(seconds=250, paths=20000), thorough=dict(seconds=600),
            bounds='%d commands in flight through sg, each a read, a write or a check condition with symbolic contents, '
                   'answered in every order' % _c, count=_c)(sg_in_flight)

harness('linux', name='sg_overlapping', reach=('read', 'write', 'check', 'call'), quick=dict(seconds=100, paths=20000),
        bounds='2 commands in flight through sg, each a read, a write or a check condition with symbolic contents, answered '
               'in every order', count=2)(sg_in_flight)
