"""Windows: the control block of IOCTL_SCSI_PASS_THROUGH_DIRECT (x64), files, and operations that run concurrently under
the reactor. kernel32 is a stand-in."""
from .api import harness
from . import env
from .h_os import le, put, peek, poke, prefix_only, Answer, command, sense_bytes, SENSE_MIN, run, queued, queue_of

IOCTL = 0x4D014
INVALID = -1


def addr(x):
    import ctypes
    return ctypes.cast(x, ctypes.c_void_p).value or 0


def val(x):
    """an argument as an integer"""
    if x is None or isinstance(x, int):
        return x or 0
    v = getattr(x, 'value', None)
    if v is not None and isinstance(v, int):
        return v
    return addr(x)


class Kernel(env.Environment):
    """kernel32 and the driver behind it"""

    def __init__(self, ctx, answers=()):
        self.ctx = ctx
        self.answers = list(answers)
        self.seen = []
        self.opened = []            # (path, access, share, disposition, flags)
        self.handles = {}           # handle -> 'file' or 'event'
        self.closed = []
        self.error = 0
        self.open_fails = 0
        self.close_fails = 0
        self.pending = []           # overlapped operations: dict
        self.done = []
        self.waits = 0
        self.events = 0
        self.overlapped = False

    def platform(self):
        return 'windows-2019-x64'

    def foreign(self, lib, name, args):
        self.ctx.check(lib == 'kernel32', 'kernel32')
        if name != 'GetLastError':
            self.error = 0          # a call that succeeds may clear the error of the one before
        return getattr(self, name)(*args)

    def fail(self, code):
        self.error = code
        return 0

    def GetLastError(self):
        return self.error

    def FormatMessageA(self, *args):
        return 0

    def CreateFileW(self, path, access, share, security, disposition, flags, template):
        self.opened.append((path, val(access), val(share), val(disposition), val(flags)))
        if self.open_fails:
            self.error = self.open_fails
            return INVALID
        h = 0x70 + 4 * len(self.opened)
        self.handles[h] = 'file'
        return h

    def CreateEventW(self, security, manual, initial, name):
        self.events += 1
        h = 0x515100 + 4 * self.events
        self.handles[h] = 'event'
        return h

    def CloseHandle(self, h):
        h = val(h)
        self.ctx.check(h in self.handles, 'only an open handle is closed')
        if self.close_fails:
            return self.fail(self.close_fails)
        if h in self.handles:
            self.closed.append((h, self.handles.pop(h)))
        return 1

    def DeviceIoControl(self, h, code, inp, n_in, out, n_out, returned, overlapped):
        ctx = self.ctx
        ctx.check(self.handles.get(val(h)) == 'file', 'the device that was opened is used')
        ctx.check(val(code) == IOCTL, 'the ioctl of the platform')
        op = {'in': addr(inp), 'n_in': val(n_in), 'out': addr(out), 'n_out': val(n_out), 'answer': self.answers.pop(0)}
        if overlapped is None or val(overlapped) == 0:
            ctx.check(returned is not None, 'a synchronous call tells where to put the count')
            self.perform(op)
            if op['failed']:
                return self.fail(op['failed'])
            poke(addr(returned), [56, 0, 0, 0])
            return 1
        op['overlapped'] = addr(overlapped)
        op['event'] = self.event_of(op['overlapped'])
        how = op['answer'].how
        if how == 'refused':
            op['answer'].happened = True
            return self.fail(op['answer'].oserror)
        self.pending.append(op)
        if how == 'immediate':
            self.perform(op)
            self.done.append(op)
            self.pending.remove(op)
            return 1
        return self.fail(997)

    def event_of(self, a):
        for off in (24, 32):
            e = le(peek(a + off, 8), 0, 8)
            if self.handles.get(e) == 'event':
                break
        else:
            self.ctx.check(False, 'an overlapped operation has an event')
            return None
        self.ctx.check(all(op['event'] != e for op in self.pending), 'operations in flight have events of their own')
        return e

    def perform(self, op):
        """the driver, by the layout of SCSI_PASS_THROUGH_DIRECT on x64"""
        ctx = self.ctx
        raw = peek(op['in'], op['n_in'])
        ctx.check(len(raw) >= 56, 'size of the control block')
        ctx.check(le(raw, 0, 2) == 56, 'Length')
        n = le(raw, 12, 4)
        direction = {0: 'out', 1: 'in', 2: 'none'}.get(raw[8])
        sense_at = le(raw, 32, 4)
        ctx.check(sense_at >= 56, 'the sense data does not overwrite the request')
        ctx.check(sense_at + raw[7] <= op['n_out'], 'the sense data fits')
        self.seen.append({
            'cdb': raw[36:36 + raw[6]], 'length': n, 'direction': direction, 'sense_size': raw[7], 'timeout': le(raw, 16, 4),
            'target': raw[3:6], 'data': peek(le(raw, 24, 8), n) if direction == 'out' else None})
        a = op['answer']
        a.happened = True
        op['failed'] = a.oserror
        if a.oserror:
            return
        moved = n if a.moved is None else a.moved
        if a.data is not None and direction == 'in':
            poke(le(raw, 24, 8), a.data[:moved])
        if a.sense is not None:
            poke(op['out'] + sense_at, a.sense[:raw[7]])
            raw[7] = min(raw[7], len(a.sense))
        raw[2] = a.status
        put(raw, 12, 4, moved)
        poke(op['out'], raw[:56])

    # overlapped operations
    def WaitForMultipleObjects(self, n, array, every, timeout):
        ctx = self.ctx
        k = self.waits
        self.waits += 1
        a = addr(array)
        events = [le(peek(a + 8 * i, 8), 0, 8) for i in range(val(n))]
        ctx.check(not every, 'any of the operations')
        for e in events:
            ctx.check(sum(op['event'] == e for op in self.pending + self.done) == 1, 'each event waited for is of an operation')
        if self.wait_result is not None:
            self.error = 6
            return self.wait_result
        ready = [i for i, e in enumerate(events) if any(op['event'] == e for op in self.done)]
        if ready:
            i = ready[0]        # operations that completed are reported first
        else:
            i = ctx.pick('wakes%d' % k, 0, len(events) - 1)
            if i:
                ctx.reach('out of order')
        for op in list(self.pending):
            if op['event'] == events[i]:
                self.pending.remove(op)
                self.perform(op)
                self.done.append(op)
        return i

    wait_result = None

    def GetOverlappedResult(self, h, overlapped, transferred, wait):
        a = addr(overlapped)
        self.ctx.check(self.handles.get(val(h)) == 'file', 'the device that was opened is used')
        for op in list(self.pending):
            if op['overlapped'] == a:
                if not val(wait):
                    return self.fail(996)
                self.pending.remove(op)
                self.perform(op)
                self.done.append(op)
        mine = [op for op in self.done if op['overlapped'] == a]
        self.ctx.check(len(mine) == 1, 'the result of an operation is collected once')
        if not mine:
            return self.fail(6)
        self.done.remove(mine[0])
        if mine[0]['failed']:
            return self.fail(mine[0]['failed'])
        poke(addr(transferred), [56, 0, 0, 0])
        return 1


def start(ctx, answers=()):
    k = env.use(ctx, Kernel(ctx, answers))
    return k, env.import_win32()


def check_request(ctx, s, kind, n, cdb, out):
    ctx.eq(s['cdb'], cdb, 'the CDB reaches the driver unaltered')
    ctx.check(s['length'] == n, 'transfer length')
    if n:
        ctx.check(s['direction'] == ('in' if kind == 'read' else 'out'), 'transfer direction')
    else:
        ctx.check(s['direction'] == 'none', 'no data is transferred')
    if kind == 'write' and n:
        ctx.eq(s['data'] or [], out, 'the data reaches the driver unaltered')
    ctx.check(s['sense_size'] >= SENSE_MIN, 'room for sense data')
    ctx.check(s['timeout'] > 0, 'there is a timeout')
    ctx.eq(s['target'], [0, 0, 0], 'path, target and unit are those of the handle')


@harness('windows', reach=('read', 'write', 'short'), quick=dict(seconds=200), thorough=dict(seconds=400),
         bounds='reads and writes of 0, 1, 5 and 9 bytes with every content, CDBs of 6, 10, 12 and 16 bytes with every '
                'content; every shorter transfer')
def win_good(ctx):
    kind = ctx.choice('kind', ('read', 'write'))
    n = ctx.choice('n', (0, 1, 5, 9))
    size = ctx.choice('cdb_size', (6, 10, 12, 16))
    cmd, cdb, out = command(ctx, kind, n, size)
    reply = list(ctx.bytes('in', n)) if kind == 'read' else None
    a = Answer(data=reply)
    if kind == 'read':
        a.moved = ctx.pick('moved', 0, n)
    k, m = start(ctx, [a])
    f = m.Win32File('\\\\.\\PhysicalDrive0')
    x = m.Win32CommandExecuter(f)
    r = ctx.outcome(lambda: run(x, cmd))
    ctx.check(r.ok, 'a command that the device completed succeeds')
    ctx.check(len(k.seen) == 1, 'one request per command')
    check_request(ctx, k.seen[0], kind, n, cdb, out)
    ctx.check(x.is_queue_empty(), 'nothing is left pending')
    if not r.ok:
        return
    ctx.reach(kind)
    if kind == 'read' and a.moved:
        if a.moved < n:
            ctx.reach('short')
        ctx.eq(r.value, reply[:a.moved], 'the data of the device is returned, as much as was transferred')
    else:
        ctx.check(not r.value, 'no data')
    ctx.observe('value', r.value)


@harness('windows', reach=('good', 'check', 'other', 'oserror'), quick=dict(seconds=200),
         bounds='every SCSI status byte with sense data of 18 bytes, six of them symbolic; every failure of the system call')
def win_status(ctx):
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError, AsiOSError
    status = ctx.int('status', 0, 255)
    failed = ctx.choice('failed', (False, True)) and ctx.int('code', 1, 65535)
    sense = sense_bytes(ctx)
    reply = list(ctx.bytes('in', 2))
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    k, m = start(ctx, [Answer(status=status, data=reply, sense=sense, oserror=failed), Answer(data=reply)])
    x = m.Win32CommandExecuter(m.Win32File('disk'))
    r = ctx.outcome(lambda: run(x, cmd))
    ctx.check(x.is_queue_empty(), 'nothing is left pending')
    if failed:
        ctx.reach('oserror')
        ctx.check(r.raised(m.AsiWin32OSError), 'an error of the system call is an error')
        if not r.ok:
            ctx.check(isinstance(r.exc, AsiOSError), 'of the operating system')
            ctx.check(r.exc.win32_errno == failed, 'with its code')
    elif r.ok:
        ctx.reach('good')
        ctx.check(status == 0, 'no status but GOOD is a success')
        ctx.eq(r.value, reply, 'the data of the device is returned unaltered')
    else:
        ctx.check(status != 0, 'GOOD is a success')
        ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
        if isinstance(r.exc, AsiCheckConditionError):
            ctx.reach('check')
            ctx.check(status == 2, 'only a check condition is reported as one')
            ctx.eq(r.exc.sense_buffer[:SENSE_MIN], sense, 'the sense bytes of the device')
            ctx.check(r.exc.sense_obj is not None and r.exc.sense_obj.sense_key == 'UNIT_ATTENTION', 'decoded')
        else:
            ctx.reach('other')
            ctx.check(status != 2, 'a check condition is reported as one')
    # the next command is not affected
    r = ctx.outcome(lambda: run(x, cmd))
    ctx.check(r.ok, 'the next command succeeds')
    if r.ok:
        ctx.eq(r.value, reply, 'with its data')


@harness('windows', reach=('good', 'short', 'check', 'short check', 'busy', 'oserror'), quick=dict(seconds=200),
         thorough=dict(seconds=600), bounds='two commands (three thorough) on one executer, each a read of 0 or 2 bytes or a write '
         'of 2 that succeeds, completely or after one byte, ends with CHECK CONDITION and 18 or 8 bytes of sense data, BUSY, or an '
         'error of the system call')
def win_history(ctx):
    """what happened to one command has no influence on the next"""
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError
    cmds = []
    for i in range(3 if ctx.thorough else 2):
        how = ctx.choice('how%d' % i, ('good', 'short', 'check', 'short check', 'busy', 'oserror'))
        kind, n = ('read', 2) if how == 'short' else ctx.choice('kind%d' % i, (('read', 2), ('read', 0), ('write', 2)))
        cmd, cdb, out = command(ctx, kind, n, (6, 16)[i % 2], str(i))
        reply = list(ctx.bytes('in%d' % i, n)) if kind == 'read' else None
        a = Answer(data=reply)
        if how == 'short':
            a.moved = 1
        elif how.endswith('check'):
            a.status, a.sense = 2, sense_bytes(ctx, str(i))
            if how == 'short check':
                a.sense = a.sense[:8]
                a.sense[7] = 0
        elif how == 'busy':
            a.status = 8
        elif how == 'oserror':
            a.oserror = 5
        cmds.append((how, kind, n, cmd, cdb, out, reply, a))
    k, m = start(ctx, [c[-1] for c in cmds])
    x = m.Win32CommandExecuter(m.Win32File('disk'))
    for how, kind, n, cmd, cdb, out, reply, a in cmds:
        del k.seen[:]
        r = ctx.outcome(lambda: run(x, cmd))
        ctx.check(len(k.seen) == 1, 'one request per command')
        check_request(ctx, k.seen[0], kind, n, cdb, out)
        ctx.check(x.is_queue_empty(), 'nothing is left pending')
        if how in ('good', 'short'):
            ctx.check(r.ok, 'a command that the device completed succeeds')
            if r.ok and kind == 'read' and n:
                ctx.eq(r.value, reply[:n if how == 'good' else 1], 'the data of the device is returned, as much as was transferred')
            elif r.ok:
                ctx.check(not r.value, 'no data')
        elif how.endswith('check'):
            ctx.check(r.raised(AsiCheckConditionError), 'a check condition')
            if r.raised(AsiCheckConditionError):
                prefix_only(ctx, r.exc.sense_buffer, a.sense, 'the sense bytes of the device')
        elif how == 'busy':
            ctx.check(r.raised(AsiSCSIError) and not r.raised(AsiCheckConditionError), 'a SCSI error')
        else:
            ctx.check(r.raised(m.AsiWin32OSError), 'an error of the system call is an error')
        ctx.reach(how)


@harness('windows', reach=('read', 'check', 'write', 'oserror', 'send', 'call', 'send and wait'), quick=dict(seconds=200),
         thorough=dict(seconds=600), bounds='three commands with a queue of 3, each sent, sent and waited for, or called; '
         'the first reads, writes, ends with CHECK CONDITION or an error of the system call, the second reads or ends with CHECK '
         'CONDITION (or writes, thorough), the third reads (or, thorough, ends with CHECK CONDITION)')
def win_queued(ctx):
    cmds = queue_of(ctx, 3)
    k, m = start(ctx, [c[-1] for c in cmds])
    queued(ctx, m.Win32CommandExecuter(m.Win32File('disk'), 3), k, cmds, m.AsiWin32OSError)


@harness('windows', reach=('read', 'write', 'sense'), quick=dict(seconds=200), thorough=dict(seconds=300),
         bounds='transfers of 65836 bytes, the first and last two symbolic; 252 bytes of sense data, eight symbolic')
def win_long(ctx):
    """transfers beyond 64 KiB, and sense data of the 252 bytes that SPC-4 allows"""
    from infi.asi.errors import AsiCheckConditionError
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    what = ctx.choice('what', ('read', 'write', 'sense'))
    ends = list(ctx.bytes('ends', 4))
    cdb = list(ctx.bytes('cdb', 16))
    n = 65536 + 300
    pattern = ends[:2] + [(i * 7 + i // 256) & 0xff for i in range(n - 4)] + ends[2:]
    sense = [0x70, 0, 6] + ends + [244] + [0] * 4 + [0x29, 0] + [0] * 4 + [(i * 5 + 1) & 0xff for i in range(234 - 4)] + ends
    a = Answer(data=pattern if what == 'read' else None)
    if what == 'sense':
        a.status, a.sense = 2, sense
    k, m = start(ctx, [a])
    x = m.Win32CommandExecuter(m.Win32File('disk'))
    cmd = SCSIWriteCommand(bytes(cdb), bytes(pattern)) if what == 'write' else SCSIReadCommand(bytes(cdb), n)
    r = ctx.outcome(lambda: run(x, cmd))
    ctx.check(len(k.seen) == 1, 'one request per command')
    check_request(ctx, k.seen[0], 'write' if what == 'write' else 'read', n, cdb, pattern)
    ctx.check(x.is_queue_empty(), 'nothing is left pending')
    if what == 'sense':
        ctx.check(r.raised(AsiCheckConditionError), 'a check condition')
        if r.raised(AsiCheckConditionError):
            prefix_only(ctx, r.exc.sense_buffer, sense, 'the sense bytes of the device')
            ctx.check(r.exc.sense_obj is not None and r.exc.sense_obj.sense_key == 'UNIT_ATTENTION', 'decoded')
    else:
        ctx.check(r.ok, 'a command that the device completed succeeds')
        if r.ok and what == 'read':
            ctx.eq(list(r.value), pattern, 'the data of the device is returned unaltered')
    ctx.reach(what)


@harness('windows', reach=('open', 'fails', 'close fails'), quick=dict(seconds=60), bounds='every error code of opening and closing; '
         'synchronous and overlapped files')
def win_file(ctx):
    k, m = start(ctx)
    cls = ctx.choice('class', (m.Win32File, m.Win32AsyncFile))
    path = ctx.choice('path', ('\\\\.\\PhysicalDrive0', u'\\\\.\\\u05d0'))
    k.open_fails = ctx.choice('open fails', (False, True)) and ctx.int('code', 1, 65535)
    k.close_fails = ctx.choice('close fails', (False, True)) and ctx.int('close code', 1, 65535)
    r = ctx.outcome(lambda: cls(path))
    ctx.check(len(k.opened) == 1, 'opened once')
    p, access, share, disposition, flags = k.opened[0]
    ctx.check(p == path, 'the path given')
    ctx.check(access == 0xC0000000, 'for reading and writing')
    ctx.check(share == 3, 'shared')
    ctx.check(disposition == 3, 'only if it exists')
    ctx.check(flags == (0x40000000 if cls is m.Win32AsyncFile else 0), 'overlapped if asynchronous')
    if k.open_fails:
        ctx.reach('fails')
        ctx.check(r.raised(m.AsiWin32OSError), 'a file that cannot be opened is an error')
        if not r.ok:
            ctx.check(r.exc.win32_errno == k.open_fails, 'with its code')
        return
    ctx.check(r.ok, 'opened')
    f = r.value
    failing = k.close_fails
    c = ctx.outcome(lambda: f.close())
    if failing:
        ctx.reach('close fails')
        ctx.check(c.raised(m.AsiWin32OSError), 'a file that cannot be closed is an error')
        k.close_fails = 0
        c = ctx.outcome(lambda: f.close())
    ctx.check(c.ok, 'closed')
    ctx.check(len(k.closed) == 1 and not k.handles, 'the handle is closed')
    c = ctx.outcome(lambda: f.close())
    ctx.check(c.ok and len(k.closed) == 1, 'closing again does nothing')
    ctx.reach('open')


def win_reactor(ctx, count, shared, hows, calls):
    """concurrent commands: the results come in the order of the commands, whatever order they complete in"""
    from infi.asi.coroutines.sync_adapter import async_wait
    from infi.asi.errors import AsiCheckConditionError
    k, m = start(ctx)
    plans = []
    one = m.Win32CommandExecuter(m.Win32AsyncFile('shared')) if shared else None
    for i in range(count):
        x = one or m.Win32CommandExecuter(m.Win32AsyncFile('disk%d' % i))
        steps = []
        for j in range(ctx.choice('calls%d' % i, calls)):
            t = '%d.%d' % (i, j)
            how = ctx.choice('how' + t, hows)
            cmd, cdb, _ = command(ctx, 'read', 2, 6, t)
            a = Answer(data=list(ctx.bytes('in' + t, 2)))
            a.how = how
            a.happened = False
            if how in ('fails', 'refused'):
                a.oserror = 21
            steps.append((cmd, cdb, a))
        plans.append((x, steps))
    byte = {}
    started = []

    # answers are looked up by the command that arrives, through the order in which calls are made
    def body(i, x, steps):
        out = []
        for cmd, cdb, a in steps:
            k.answers.append(a)
            try:
                data = yield x.call(cmd)
                out.append(data)
            except m.AsiWin32OSError as e:
                out.append(e)
        yield ('plan', i, out)

    r = ctx.outcome(lambda: async_wait(*[body(i, x, steps) for i, (x, steps) in enumerate(plans)]))
    ctx.check(r.ok, 'concurrent commands complete')
    if not r.ok:
        ctx.observe('error', r.exc)
        return
    ctx.check(len(r.value) == count, 'one result per command')
    for i, (v, (x, steps)) in enumerate(zip(r.value, plans)):
        ctx.check(isinstance(v, tuple) and v[1] == i, 'results in the order of the commands')
        if not (isinstance(v, tuple) and v[1] == i):
            continue
        ctx.check(len(v[2]) == len(steps), 'one result per step')
        for got, (cmd, cdb, a) in zip(v[2], steps):
            ctx.check(a.happened, 'a result is not there before the operation')
            if a.oserror:
                ctx.reach(a.how)
                ctx.check(isinstance(got, m.AsiWin32OSError) and got.win32_errno == 21, 'the failure of the command')
            else:
                ctx.check(not isinstance(got, Exception), 'success')
                if not isinstance(got, Exception):
                    ctx.eq(got, a.data, 'the data of this command')
                ctx.reach(a.how)
        ctx.check(x.is_queue_empty(), 'nothing is left pending')
    cdbs = [cdb for x, steps in plans for cmd, cdb, a in steps if a.how != 'refused']
    ctx.check(len(k.seen) == len(cdbs), 'each command is sent once')
    ctx.check(not k.pending and not k.done, 'every operation was collected')
    ctx.check('event' not in k.handles.values(), 'no event is left open')


for _count, _shared, _hows, _calls in ((2, False, ('pending', 'immediate', 'fails', 'refused'), (1,)),
                                       (2, False, ('pending', 'fails'), (0, 1, 2)),
                                       (3, False, ('pending',), (1, 2)), (3, True, ('pending', 'immediate'), (1,)),
                                       (4, False, ('pending',), (1,))):
    harness('windows-async', name='win_reactor[%d%s,%d]' % (_count, 's' if _shared else '', len(_hows)),
            reach=_hows + ('out of order',), quick=dict(seconds=200),
            thorough=dict(seconds=400), bounds='%d concurrent coroutines %s, each making %s calls that are %s; every order of '
            'completion' % (_count, 'on one executer' if _shared else 'on devices of their own', _calls, ', '.join(_hows)),
            count=_count, shared=_shared, hows=_hows, calls=_calls)(win_reactor)


@harness('windows-async', reach=('raised',), quick=dict(seconds=60), bounds='every SCSI status byte, every result of the wait that is '
         'not a completion')
def win_reactor_errors(ctx):
    from infi.asi.coroutines.sync_adapter import async_wait
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError
    which = ctx.choice('which', ('status', 'wait'))
    status = ctx.int('status', 0, 255) if which == 'status' else 0
    sense = sense_bytes(ctx)
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    a = Answer(data=list(ctx.bytes('in', 2)), status=status, sense=sense)
    a.how = 'pending'
    k, m = start(ctx, [a])
    if which == 'wait':
        k.wait_result = ctx.choice('wait', (-1, 0x80, 0x102))
    x = m.Win32CommandExecuter(m.Win32AsyncFile('disk'))
    r = ctx.outcome(lambda: async_wait(x.call(cmd)))
    if which == 'wait':
        ctx.reach('raised')
        ctx.check(r.raised(m.AsiWin32OSError), 'a wait that fails or times out is an error')
        return
    if r.ok:
        ctx.check(status == 0, 'no status but GOOD is a success')
        ctx.check(len(r.value) == 1, 'one result per command')
        ctx.eq(r.value[0], a.data, 'the data of the device')
    else:
        ctx.check(status != 0, 'GOOD is a success')
        ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
        ctx.check(isinstance(r.exc, AsiCheckConditionError) == (True if ctx.is_true(status == 2) else False), 'a check condition '
                  'is reported as one')


@harness('windows-async', reach=('blocking',), quick=dict(seconds=60), bounds='pending, immediate and failing operations')
def win_async_file_sync(ctx):
    """an overlapped file can be used by a synchronous caller"""
    a = Answer(data=list(ctx.bytes('in', 2)))
    a.how = ctx.choice('how', ('pending', 'immediate', 'fails', 'refused'))
    if a.how in ('fails', 'refused'):
        a.oserror = ctx.int('code', 1, 900)
    cmd, cdb, _ = command(ctx, 'read', 2, 6)
    k, m = start(ctx, [a])
    x = m.Win32CommandExecuter(m.Win32AsyncFile('disk'))
    r = ctx.outcome(lambda: run(x, cmd))
    if a.oserror:
        ctx.check(r.raised(m.AsiWin32OSError), 'an error of the system call is an error')
        if r.raised(m.AsiWin32OSError):
            ctx.check(r.exc.win32_errno == a.oserror, 'with its code')
    else:
        ctx.check(r.ok, 'success')
        if r.ok:
            ctx.eq(r.value, a.data, 'the data of the device')
    ctx.check(x.is_queue_empty(), 'nothing is left pending')
    ctx.check('event' not in k.handles.values(), 'no event is left open')
    ctx.reach('blocking')
