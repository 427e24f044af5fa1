"""The queue of commands in flight: for every history of sends, calls and waits and every order in which the device
answers, each command is answered once, with its own answer."""
from .api import harness
from . import env

TOKENS = 8


class Device(object):
    """answers outstanding commands in an order of its choice; the id in an answer may be any integer"""

    def __init__(self, ctx, strays):
        self.ctx = ctx
        self.strays = strays
        self.outstanding = []       # (id, token), in the order they were sent
        self.answers = {}           # token -> ('data', bytes) or ('error', exception)
        self.received = 0
        self.fail_next = False
        self.stray_now = False

    def take(self):
        """the next answer: (result, id)"""
        ctx = self.ctx
        k = self.received
        self.received += 1
        ctx.check(len(self.outstanding) > 0, 'nobody waits for an answer when nothing is in flight')
        self.stray_now = False
        if self.strays and ctx.choice('stray%d' % k, (False, True)):
            self.strays -= 1
            sid = ctx.int('sid%d' % k, -100, 100)
            for i, t in self.outstanding:
                ctx.assume(sid != i)
            self.stray_now = True
            ctx.reach('stray')
            return b'stray', sid
        which = ctx.pick('order%d' % k, 0, len(self.outstanding) - 1)
        i, t = self.outstanding.pop(which)
        if which:
            ctx.reach('out of order')
        if ctx.choice('error%d' % k, (False, True)):
            from infi.asi.errors import AsiSCSIError
            r = AsiSCSIError('status of token %d' % t) if t % 2 == 0 else IOError(5, 'status of token %d' % t)
            self.answers[t] = ('error', r)
        else:
            r = bytes(ctx.bytes('data%d' % k, 1))
            self.answers[t] = ('data', r)
        # the driver reports the id in a field of its own
        rid = ctx.int('id%d' % k, -2 ** 31, 2 ** 31 - 1)
        ctx.assume(rid == i)
        return r, rid


def make_executer(device, size):
    from infi.asi import CommandExecuterBase

    class Executer(CommandExecuterBase):
        def _os_prepare_to_send(self, command, packet_index):
            if isinstance(device.fail_next, ValueError):
                raise device.fail_next
            return (packet_index, command)

        def _os_send(self, os_data):
            i, command = os_data
            if device.fail_next:
                raise device.fail_next
            for j, t in device.outstanding:
                device.ctx.check(i != j, 'commands in flight have distinct ids')
            device.outstanding.append((i, command))
            yield None

        def _os_receive(self):
            answer = device.take()
            yield answer

    return Executer(max_queue_size=size)


class History(object):
    def __init__(self, ctx, size, strays):
        self.ctx = ctx
        self.size = size
        self.device = Device(ctx, strays)
        self.executer = make_executer(self.device, size)
        self.calls = {}         # token -> callbacks it got
        self.sent = []          # tokens that reached the device and expect a callback
        self.n = 0
        self.raised = None      # what a callback raised and nobody caught yet

    def token(self):
        self.n += 1
        return self.n

    def send(self, with_callback, failing):
        from infi.asi.errors import AsiRequestQueueFullError
        from infi.asi.coroutines.sync_adapter import sync_wait
        ctx, d = self.ctx, self.device
        t = self.token()
        full = len(d.outstanding) >= self.size
        before = list(d.outstanding)
        got = self.calls.setdefault(t, [])
        # the second may be interrupted instead, the third impossible to prepare
        d.fail_next = failing and (ValueError(), OSError(5, 'no device'), KeyboardInterrupt())[t % 3]
        if with_callback:
            r = ctx.outcome(lambda: sync_wait(self.executer.send(t, lambda data, exc: got.append((data, exc)))))
        else:
            r = ctx.outcome(lambda: sync_wait(self.executer.send(t)))
        d.fail_next = False
        if full:
            ctx.reach('full')
            ctx.check(r.raised(AsiRequestQueueFullError), 'a full queue refuses a command')
            ctx.check(d.outstanding == before, 'a refused command is not sent')
            ctx.check(len(got) == 0, 'a refused command is not answered')
        elif failing:
            ctx.check(r.raised(OSError, KeyboardInterrupt, ValueError), 'the failure to send is reported')
        else:
            ctx.check(r.ok, 'a command is accepted while there is room')
            ctx.check(len(d.outstanding) == len(before) + 1, 'and sent')
            if with_callback:
                self.sent.append(t)
        self.consistent()

    def send_more(self, then):
        """the callback sends a further command, calls one, or raises"""
        from infi.asi.coroutines.sync_adapter import sync_wait
        ctx, d = self.ctx, self.device
        t = self.token()
        full = len(d.outstanding) >= self.size
        got = self.calls.setdefault(t, [])

        def callback(data, exc):
            got.append((data, exc))
            if then == 'raise':
                self.raised = Raised()
                raise self.raised
            ctx.check(not self.executer.is_queue_full(), 'a command that was answered makes room for another')
            if then == 'send':
                self.send(True, False)
                ctx.reach('sent by a callback')
            else:
                self.call()
                ctx.reach('called by a callback')
        r = ctx.outcome(lambda: sync_wait(self.executer.send(t, callback)))
        ctx.check(r.ok != full, 'a command is accepted while there is room')
        if r.ok:
            self.sent.append(t)
        self.consistent()

    def wait_all(self):
        from infi.asi.coroutines.sync_adapter import sync_wait
        ctx, d = self.ctx, self.device
        for _ in range(TOKENS):
            self.raised = None
            r = ctx.outcome(lambda: sync_wait(self.executer.wait()))
            self.consistent()
            if r.ok:
                ctx.check(self.raised is None, 'what a callback raises reaches the caller')
                break
            ctx.check(r.exc is self.raised, 'waiting only fails with what a callback raised')
            ctx.reach('raised by a callback')
        ctx.check(len(d.outstanding) == 0, 'waiting drains the queue')

    def call(self):
        from infi.asi.errors import AsiRequestQueueFullError, AsiInternalError
        from infi.asi.coroutines.sync_adapter import sync_wait
        ctx, d = self.ctx, self.device
        t = self.token()
        full = len(d.outstanding) >= self.size
        r = ctx.outcome(lambda: sync_wait(self.executer.call(t)))
        if full:
            ctx.reach('full')
            ctx.check(r.raised(AsiRequestQueueFullError), 'a full queue refuses a command')
            ctx.check(all(u != t for _, u in d.outstanding), 'a refused command is not sent')
        elif d.stray_now:
            ctx.check(r.raised(AsiInternalError), 'an answer to nobody is an internal error')
        elif self.raised is not None and r.exc is self.raised:
            self.raised = None          # of the callback of another command
        else:
            ctx.check(t in d.answers, 'a call ends when its command was answered')
            if t in d.answers:
                kind, value = d.answers[t]
                if kind == 'error':
                    ctx.check((not r.ok) and r.exc is value, 'the error of the command is raised')
                else:
                    ctx.check(r.ok, 'a command that succeeds returns')
                    if r.ok:
                        ctx.eq(r.value, value, 'the data of this command')
                ctx.reach('call')
        self.device.stray_now = False
        self.consistent()

    def wait(self):
        from infi.asi.errors import AsiInternalError
        from infi.asi.coroutines.sync_adapter import sync_wait
        ctx, d = self.ctx, self.device
        r = ctx.outcome(lambda: sync_wait(self.executer.wait()))
        if d.stray_now:
            ctx.check(r.raised(AsiInternalError), 'an answer to nobody is an internal error')
            d.stray_now = False
        else:
            ctx.check(r.ok, 'waiting succeeds, errors of commands go to their callbacks')
            ctx.check(len(d.outstanding) == 0, 'waiting drains the queue')
        self.consistent()

    def consistent(self):
        ctx, d = self.ctx, self.device
        ctx.check(len(d.outstanding) <= self.size, 'no more commands in flight than the queue holds')
        ctx.check(self.executer.is_queue_full() == (len(d.outstanding) >= self.size), 'full is told')
        ctx.check(self.executer.is_queue_empty() == (len(d.outstanding) == 0), 'empty is told')
        for t, got in self.calls.items():
            if t in self.sent and t in d.answers:
                ctx.check(len(got) == 1, 'each command is answered once')
                kind, value = d.answers[t]
                for data, exc in got:
                    if kind == 'error':
                        ctx.check(data is None and exc is value, 'with its own error')
                    else:
                        ctx.check(exc is None, 'success')
                        ctx.eq(data, value, 'with its own data')
            else:
                ctx.check(len(got) == 0, 'no callback before the answer')


class Raised(Exception):
    pass


def queue_callbacks(ctx, size, steps, more):
    h = History(ctx, size, 0)
    for s in range(more if ctx.thorough else steps):
        op = ctx.choice('op%d' % s, ('send', 'call', 'raise', 'plain', 'wait') if ctx.thorough or s == 0 else
                        ('send', 'call', 'plain', 'wait'))
        if op == 'wait':
            h.wait_all()
        elif op == 'plain':
            h.send(True, False)
        else:
            h.send_more(op)
    h.wait_all()
    ctx.check(len(h.device.outstanding) == 0, 'at the end every command was answered')
    for t in h.sent:
        ctx.check(len(h.calls[t]) == 1, 'each command is answered once')
    ctx.observe('answers', [(t, k) for t, (k, v) in sorted(h.device.answers.items())])


for _size, _steps, _more in ((1, 3, 4), (2, 3, 3), (3, 2, 3)):
    harness('command-queue', name='queue_callbacks[%d]' % _size, reach=('sent by a callback', 'called by a callback',
                                                                        'raised by a callback'),
            quick=dict(seconds=300, paths=60000), thorough=dict(seconds=700, paths=400000), size=_size, steps=_steps, more=_more,
            bounds='a queue of %d, every history of %d operations (%d thorough) of waiting and sending commands whose callbacks do '
                   'nothing, send a further command, call one, or raise; every order of answers' % (_size, _steps, _more),
            )(queue_callbacks)


def queue_history(ctx, size, ops, steps, more, strays):
    h = History(ctx, size, strays)
    for s in range(more if ctx.thorough else steps):
        op = ctx.choice('op%d' % s, ops)
        if op == 'send':
            h.send(True, False)
        elif op == 'send without callback':
            h.send(False, False)
        elif op == 'send fails':
            h.send(True, True)
        elif op == 'call':
            h.call()
        else:
            h.wait()
    h.wait()
    h.wait()
    ctx.check(len(h.device.outstanding) == 0, 'at the end every command was answered')
    ctx.reach('end')
    ctx.observe('answers', [(t, k) for t, (k, v) in sorted(h.device.answers.items())])


for _size, _steps, _more in ((1, 4, 5), (2, 4, 5), (3, 5, 6)):
    harness('command-queue', name='queue_history[%d]' % _size, reach=('full', 'call', 'end') + (
        ('out of order',) if _size > 1 else ()), quick=dict(seconds=300, paths=60000), thorough=dict(seconds=700, paths=400000),
        bounds='a queue of %d, every history of %d operations (%d thorough) of send and call, and waiting for the rest; '
               'every order of answers, each an error or data' % (_size, _steps, _more),
        size=_size, ops=('send', 'call'), steps=_steps, more=_more, strays=0)(queue_history)
    harness('command-queue', name='queue_faults[%d]' % _size, reach=('end', 'stray'), quick=dict(seconds=300, paths=60000),
            thorough=dict(seconds=700, paths=400000),
            bounds='a queue of %d, every history of 3 operations (4 thorough) of send with and without callback, send that '
                   'fails, call and wait; every order of answers; at most one answer with an id that nobody has' % _size,
            size=_size, ops=('send', 'send without callback', 'send fails', 'call', 'wait'), steps=3, more=4,
            strays=1)(queue_history)


@harness('command-queue', reach=('full', 'end'), quick=dict(seconds=100), bounds='the default queue, filled completely twice; '
         'answers first in, first out or last in, first out')
def queue_default(ctx):
    from infi.asi import DEFAULT_MAX_QUEUE_SIZE

    class Ordered(Device):
        def take(self):
            i, t = self.outstanding.pop(0 if self.fifo else -1)
            self.answers[t] = ('data', bytes([t]))
            return bytes([t]), i

    h = History(ctx, DEFAULT_MAX_QUEUE_SIZE, 0)
    h.device.__class__ = Ordered
    for r in range(2):
        h.device.fifo = ctx.choice('fifo%d' % r, (False, True))
        for i in range(DEFAULT_MAX_QUEUE_SIZE + 1):
            h.send(True, False)
        h.wait()
    ctx.reach('end')
