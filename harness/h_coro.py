"""Running coroutines: for every program of nested coroutines in the bounds, the driver has the meaning of plain
calls - a value or an exception goes to the coroutine that waits for it, in order, once."""
from .api import harness

UNSPECIFIED = object()


class Boom(Exception):
    pass


class Killed(BaseException):
    """as GreenletExit, SystemExit and KeyboardInterrupt are"""


def program(ctx, name, depth, length, stmts, error=Boom):
    """a body: a list of statements. ('value', v) ('token', v) ('raise', e) ('child', body) ('try', body, handler)
    ('return',)"""
    body = []
    for i in range(length[depth]):
        n = '%s.%d' % (name, i)
        kinds = [k for k in stmts if depth > 0 or k not in ('child', 'try')]
        k = ctx.choice(n, kinds)
        if k == 'end':
            break
        if k in ('value', 'token'):
            body.append((k, ctx.int(n + 'v', -1000, 1000)))
        elif k in ('raise', 'bad token'):
            body.append((k, error(n)))
            break
        elif k == 'child':
            body.append((k, program(ctx, n, depth - 1, length, stmts, error)))
        else:
            # what is tried: another coroutine, or an operation that fails
            sub = [('bad token', error(n))] if k == 'try token' else program(ctx, n, depth - 1, length, stmts, error)
            h = ctx.choice(n + 'h', ('go on', 'value', 'raise', 'same', 'return')) if can_raise(sub) else 'go on'
            body.append((k, sub, h, ctx.int(n + 'hv', -1000, 1000) if h == 'value' else None, error(n + 'h')))
    return body


def can_raise(body):
    return run_reference(body, [])[0] == 'exc'


def run_reference(body, log):
    """what the program means: ('ok', its value) or ('exc', the exception)"""
    value = UNSPECIFIED
    for i, s in enumerate(body):
        if s[0] in ('value', 'token'):
            value = s[1]
            log.append(value)
        elif s[0] in ('raise', 'bad token'):
            return 'exc', s[1]
        elif s[0] == 'child':
            kind, r = run_reference(s[1], log)
            if kind == 'exc':
                return kind, r
            value = r
            log.append(value)
        else:
            kind, r = run_reference(s[1], log)
            if kind == 'ok':
                value = r
                log.append(value)
            else:
                log.append(('caught', r))
                value = UNSPECIFIED
                if s[2] == 'value':
                    value = s[3]
                    log.append(value)
                elif s[2] == 'raise':
                    return 'exc', s[4]
                elif s[2] == 'same':
                    return 'exc', r
                elif s[2] == 'return':
                    return 'ok', UNSPECIFIED
    return 'ok', value


def tokens(ctx):
    from infi.asi import OSAsyncIOToken

    class Token(OSAsyncIOToken):
        def __init__(self, value):
            self.value = value

        def get_result(self, block=False):
            ctx.check(block, 'a synchronous caller waits for the operation')
            if isinstance(self.value, BaseException):
                raise self.value
            return self.value
    return Token


def coroutine(body, log, Token):
    """the same program, as generators"""
    for i, s in enumerate(body):
        if s[0] == 'value':
            x = yield s[1]
            log.append(x)
        elif s[0] == 'token':
            x = yield Token(s[1])
            log.append(x)
        elif s[0] == 'raise':
            raise s[1]
        elif s[0] == 'bad token':
            yield Token(s[1])
        elif s[0] == 'child':
            x = yield coroutine(s[1], log, Token)
            log.append(x)
        else:
            try:
                x = yield (Token(s[1][0][1]) if s[0] == 'try token' else coroutine(s[1], log, Token))
                caught = None
            except (Boom, Killed) as e:
                caught = e
            if caught is None:
                log.append(x)
            else:
                log.append(('caught', caught))
                if s[2] == 'value':
                    x = yield s[3]
                    log.append(x)
                elif s[2] == 'raise':
                    raise s[4]
                elif s[2] == 'same':
                    raise caught
                elif s[2] == 'return':
                    return


def compare(ctx, body, r, log):
    want = []
    kind, value = run_reference(body, want)
    if kind == 'exc':
        ctx.reach('raises')
        ctx.check((not r.ok) and r.exc is value, 'an exception that nobody handles is raised to the caller')
    else:
        ctx.reach('returns')
        ctx.check(r.ok, 'a coroutine that handles its exceptions succeeds')
        if r.ok and value is not UNSPECIFIED:
            ctx.check(r.value == value, 'the result is the last value of the outermost coroutine')
    ctx.check(len(log) == len(want), 'each coroutine runs once, in order')
    for a, b in zip(log, want):
        if isinstance(b, tuple):
            ctx.reach('handled')
            ctx.check(isinstance(a, tuple) and a[1] is b[1], 'an exception is raised in the coroutine that waits')
        else:
            ctx.check(not isinstance(a, tuple), 'no exception is made up')
            if b is not UNSPECIFIED and not isinstance(a, tuple):
                ctx.check(a == b, 'a coroutine receives the value of what it waits for')


def coroutine_program(ctx, depth, length, more, stmts, errors):
    from infi.asi.coroutines.sync_adapter import sync_wait, sync_call
    error = ctx.choice('error', errors) if len(errors) > 1 or ctx.thorough else errors[0]
    body = program(ctx, 'p', depth, more if ctx.thorough else length, stmts, error)
    log, calls = [], []

    def func(*a, **k):
        calls.append((a, k))
        return coroutine(body, log, tokens(ctx))
    if ctx.choice('by', ('wait', 'call')) == 'wait':
        r = ctx.outcome(lambda: sync_wait(func(1, x=2)))
    else:
        r = ctx.outcome(lambda: sync_call(func, 1, x=2))
    ctx.check(calls == [((1,), {'x': 2})], 'the function is called once, with the arguments given')
    compare(ctx, body, r, log)
    if r.ok and run_reference(body, [])[1] is not UNSPECIFIED:
        ctx.observe('value', r.value)


ALL = ('end', 'value', 'token', 'bad token', 'try token', 'child', 'try')
for _name, _depth, _length, _more, _stmts, _errors in (
        ('wide', 1, (2, 2), (2, 3), ('end', 'value', 'raise', 'child', 'try'), (Boom, Killed)),
        ('tokens', 1, (1, 2), (2, 2), ALL, (Boom, Killed)),
        ('deep', 3, (1, 1, 1, 1), (1, 1, 1, 2), ('value', 'raise', 'child', 'try'), (Boom, Killed)),
        ('middle', 2, (1, 2, 1), (2, 2, 1), ('end', 'value', 'raise', 'child', 'try'), (Boom,)),
        ):
    harness('coroutines', name='coroutine_program[%s]' % _name, reach=('raises', 'returns', 'handled'),
            quick=dict(seconds=250, paths=30000), thorough=dict(seconds=700, paths=200000),
            bounds='every program of coroutines nested to depth %d with up to %s statements (%s thorough), innermost first, of '
                   '%s; a handler goes on, yields, raises another or the same exception or returns; exceptions that are Exceptions and ones that are not; every value' % (
                       _depth, ', '.join(map(str, _length)), ', '.join(map(str, _more)), ', '.join(_stmts)),
            depth=_depth, length=_length, more=_more, stmts=_stmts, errors=_errors)(coroutine_program)


@harness('coroutines', reach=('end',), quick=dict(seconds=60),
         bounds='1500 statements in a row, coroutines nested 150 deep, 1500 exceptions handled; values that are kept by reference: '
                'false ones, texts, lists, functions, classes; first value symbolic')
def coroutine_long(ctx):
    """long programs and deep ones are as short ones, values of every type are handed over as they are"""
    from infi.asi.coroutines.sync_adapter import sync_wait
    Token = tokens(ctx)
    v = ctx.int('v', -1000, 1000)
    objects = [None, False, 0, b'', '', [], (), {}, len, Boom, object(), (1, 2), iter([1]), range(3)]

    def child(x):
        y = yield Token(x) if x is v else x
        yield y

    def failing(e):
        yield 1
        raise e

    def deep(n):
        if n == 0:
            yield v
        else:
            x = yield deep(n - 1)
            yield x + 1

    def deep_failing(n, e):
        if n == 0:
            raise e
        try:
            yield deep_failing(n - 1, e)
        finally:
            left.append(n)
    left = []
    kind = ctx.choice('kind', ('values', 'children', 'errors', 'deep', 'deep error', 'objects'))

    def main():
        if kind == 'values':
            total = v
            for i in range(1500):
                x = yield i
                ctx.check(x == i, 'a value is received')
                total = total + x
            yield total
        elif kind == 'children':
            total = v
            for i in range(1500):
                x = yield child(i)
                ctx.check(x == i, 'the value of the coroutine is received')
                total = total + x
            yield total
        elif kind == 'errors':
            n = 0
            for i in range(1500):
                e = Boom(i)
                try:
                    yield failing(e)
                except Boom as caught:
                    ctx.check(caught is e, 'this exception is raised')
                    n += 1
            yield v + n
        elif kind == 'deep':
            x = yield deep(150)
            yield x
        elif kind == 'deep error':
            e = Killed()
            try:
                yield deep_failing(150, e)
            except Killed as caught:
                ctx.check(caught is e, 'this exception is raised')
            yield v + len(left)
        else:
            for o in objects:
                for what in (o, Token(o)):
                    x = yield what
                    ctx.check(x is o, 'the object itself is received')
                x = yield child(o)
                ctx.check(x is o, 'the object itself is received')
            x = yield child(v)
            yield x
    r = ctx.outcome(lambda: sync_wait(main()))
    ctx.reach('end')
    ctx.check(r.ok, 'it ends well')
    if r.ok:
        more = {'values': 1499 * 750, 'children': 1499 * 750, 'errors': 1500, 'deep': 150, 'deep error': 150, 'objects': 0}[kind]
        ctx.check(r.value == v + more, 'the result is the last value of the outermost coroutine')
        ctx.check(left == (list(range(1, 151)) if kind == 'deep error' else []), 'each coroutine is left once')


@harness('coroutines', reach=('full', 'done'), quick=dict(seconds=60), bounds='a queue of 1 or 2, calls and sends through the adapter')
def coroutine_adapter(ctx):
    """the blocking adapter of an executer does what the executer does"""
    from infi.asi import CommandExecuterAdapter
    from infi.asi.errors import AsiRequestQueueFullError
    from infi.asi.coroutines.sync_adapter import sync_call
    from .h_queue import Device, make_executer
    size = ctx.choice('size', (1, 2))
    d = Device(ctx, 0)
    x = CommandExecuterAdapter(make_executer(d, size), sync_call)
    got = {}
    sent = 0
    for t in range(3):
        op = ctx.choice('op%d' % t, ('send', 'call', 'wait'))
        full = len(d.outstanding) >= size
        if op == 'wait':
            x.wait()
            ctx.check(len(d.outstanding) == 0, 'waiting drains the queue')
        elif op == 'send':
            r = ctx.outcome(lambda: x.send(t, lambda data, exc: got.setdefault(t, []).append((data, exc))))
            ctx.check(r.raised(AsiRequestQueueFullError) if full else r.ok, 'sent if there is room')
        else:
            r = ctx.outcome(lambda: x.call(t))
            if full:
                ctx.reach('full')
                ctx.check(r.raised(AsiRequestQueueFullError), 'a full queue refuses a command')
            else:
                kind, value = d.answers.get(t, (None, None))
                if kind == 'data':
                    ctx.check(r.ok, 'success')
                    ctx.eq(r.value, value, 'the data of this command')
                else:
                    ctx.check((not r.ok) and r.exc is value, 'the error of this command')
        r = ctx.outcome(lambda: x.is_queue_full())
        ctx.check(r.ok and r.value == (len(d.outstanding) >= size), 'full is told')
    ctx.reach('done')
