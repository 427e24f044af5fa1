"""What the text of an error says: the statuses that the device, the host adapter, the driver or the system call
reported, by number and by the name of the header files."""
import re
from .api import harness
from . import env
from .h_os import PLATFORMS, Answer, command, run, sense_bytes
from .h_win32 import Kernel, poke, val, addr

SAM_STATUS = {0x00: 'GOOD', 0x02: 'CHECK_CONDITION', 0x04: 'CONDITION_MET', 0x08: 'BUSY', 0x18: 'RESERVATION_CONFLICT',
              0x28: 'TASK_SET_FULL', 0x30: 'ACA_ACTIVE', 0x40: 'TASK_ABORTED'}
SAM_STATUS = dict((k, 'SCSI_STATUS_' + v) for k, v in SAM_STATUS.items())
# sg_err.h
HOST = dict(enumerate('SG_ERR_DID_' + n for n in (
    'OK', 'NO_CONNECT', 'BUS_BUSY', 'TIME_OUT', 'BAD_TARGET', 'ABORT', 'PARITY', 'ERROR', 'RESET', 'BAD_INTR', 'PASSTHROUGH',
    'SOFT_ERROR')))
DRIVER = dict(enumerate('SG_ERR_DRIVER_' + n for n in (
    'OK', 'BUSY', 'SOFT', 'MEDIA', 'ERROR', 'INVALID', 'TIMEOUT', 'HARD', 'SENSE')))
# sys/scsi_buf.h
VALIDITY = {1: 'SC_SCSI_ERROR', 2: 'SC_ADAPTER_ERROR'}
ADAPTER = dict(enumerate(('SCSI_HOST_IO_BUS_ERR', 'SCSI_TRANSPORT_FAULT', 'SCSI_CMD_TIMEOUT', 'SCSI_NO_DEVICE_RESPONSE',
                          'SCSI_ADAPTER_HDW_FAILURE', 'SCSI_ADAPTER_SFW_FAILURE', 'SCSI_WW_NAME_CHANGE',
                          'SCSI_FUSE_OR_TERMINAL_PWR', 'SCSI_TRANSPORT_RESET', 'SCSI_TRANSPORT_BUSY', 'SCSI_TRANSPORT_DEAD',
                          'SCSI_VERIFY_DEVICE', 'SCSI_TRANSPORT_MIGRATED', 'SCSI_ERROR_NO_RETRY', 'SCSI_ERROR_DELAY_LOG'), 1))
EINVAL = {1: 'VERS', 9: 'Q_TAG_MSG', 10: 'FLAGS', 11: 'DEVFLAGS', 12: 'Q_FLAGS', 13: 'CDB_LEN', 15: 'AS_LEN', 16: 'CDB', 17: 'TO',
          18: 'D_LEN', 19: 'SID', 20: 'LUN', 21: 'BUFF', 22: 'AS_BUFF', 23: 'VAR_CDB_LEN', 24: 'VAR_CDB'}
EINVAL = dict((k, 'SC_PASSTHRU_INV_' + v) for k, v in EINVAL.items())

TOKEN = re.compile(r'[A-Za-z0-9_]+')


def numbers(ctx, text):
    """what the numbers in the text are, read as decimal and as hexadecimal"""
    r = []
    for t in TOKEN.findall(text):
        for base in (10, 16):
            try:
                r.append(ctx.text_value(int(t, base)))
            except ValueError:
                pass
    return r


def tells(ctx, text, value, what):
    ctx.check(ctx.Or(*[n == value for n in numbers(ctx, text)] + [False]), 'the error tells the %s' % what)


def names(ctx, text, value, table, what, others=()):
    """the name of the value is there (zero need not be), no other of the table is"""
    there = set(TOKEN.findall(text)) - set(others)
    for code, name in sorted(table.items()):
        if name in there:
            ctx.check(value == code, 'the error names the %s that was reported and no other' % what)
            ctx.reach('named')
        elif code != 0:
            ctx.check(value != code, 'the %s is named when it has a name' % what)


def failed_with(ctx, platform, answer, kind='read'):
    cmd, cdb, out = command(ctx, kind, 2, 6)
    ctx.track_text()
    d, executer = PLATFORMS[platform](ctx, [answer])
    r = ctx.outcome(lambda: run(executer, cmd))
    return r, '' if r.ok else str(r.exc)


@harness('error-text', reach=('status', 'driver', 'host', 'named', 'unnamed'), quick=dict(seconds=250), thorough=dict(seconds=600, paths=60000),
         bounds='every value of one of SCSI status (8 bits), host status and driver status (16 bits each) with the others from a few '
         'values (all of the named ones, thorough), through sg and ioctl')
def text_linux(ctx):
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError, AsiRequestQueueFullError, AsiReservationConflictError
    platform = ctx.choice('variant', ('linux_sg', 'linux_ioctl'))
    which = ctx.choice('which', ('status', 'host', 'driver'))
    few = ctx.thorough
    status = ctx.int('status', 0, 255) if which == 'status' else ctx.choice('status_', (0, 8) + ((0x28, 0x40) if few else ()))
    host = ctx.int('host', 0, 65535) if which == 'host' else ctx.choice('host_', (0, 3) + ((7, 1, 0xb) if few else ()))
    driver = ctx.int('driver', 0, 65535) if which == 'driver' else ctx.choice('driver_', (0, 6) + ((0x14, 7) if few else ()))
    r, text = failed_with(ctx, platform, Answer(status=status, host=host, driver=driver, sense=sense_bytes(ctx)))
    if r.ok or isinstance(r.exc, (AsiCheckConditionError, AsiRequestQueueFullError, AsiReservationConflictError)):
        return
    ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
    ctx.reach(which)
    if ctx.is_true(status != 0):
        tells(ctx, text, status, 'SCSI status')
    names(ctx, text, status, SAM_STATUS, 'SCSI status')
    low = driver & 0x0f
    if ctx.is_true(low != 0):
        ctx.check(ctx.Or(*[ctx.Or(n == low, n == driver) for n in numbers(ctx, text)] + [False]), 'the error tells the driver status')
    names(ctx, text, low, DRIVER, 'driver status')
    if ctx.is_true(host != 0):
        tells(ctx, text, host, 'host status')
    names(ctx, text, host, HOST, 'host status')
    if ctx.is_true(ctx.Or(host > 0xb, low > 8)):
        ctx.reach('unnamed')


@harness('error-text', reach=('status', 'sense'), quick=dict(seconds=100), bounds='every SCSI status, reason and request sense status byte')
def text_solaris(ctx):
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError
    status = ctx.int('status', 0, 255)
    reason = ctx.int('reason', 0, 255)
    rq = ctx.int('rqstatus', 0, 255)
    r, text = failed_with(ctx, 'solaris', Answer(status=status, reason=reason, rqstatus=rq, sense=sense_bytes(ctx)))
    if r.ok or isinstance(r.exc, AsiCheckConditionError):
        return
    ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
    if ctx.is_true(status != 0):
        ctx.reach('status')
        tells(ctx, text, status, 'SCSI status')
        tells(ctx, text, reason, 'reason')
    else:
        ctx.reach('sense')
        tells(ctx, text, rq, 'request sense status')


@harness('error-text', reach=('scsi', 'adapter', 'unknown', 'named'), quick=dict(seconds=250), thorough=dict(seconds=400),
         bounds='every value of one of status validity, SCSI bus status and adapter status with the others from a few values')
def text_aix(ctx):
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError
    which = ctx.choice('which', ('validity', 'status', 'adapter'))
    validity = ctx.int('validity', 1, 255) if which == 'validity' else ctx.choice('validity_', (1, 2))
    status = ctx.int('status', 0, 255) if which == 'status' else ctx.choice('status_', (8, 0x28, 0x40))
    adapter = ctx.int('adapter', 0, 255) if which == 'adapter' else ctx.choice('adapter_', (0, 3, 0x0f))
    r, text = failed_with(ctx, 'aix', Answer(status=status, validity=validity, sense=sense_bytes(ctx), adapter=adapter))
    ctx.check(not r.ok, 'an error')
    if r.ok or isinstance(r.exc, AsiCheckConditionError):
        return
    ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
    tells(ctx, text, validity, 'validity')
    names(ctx, text, validity, VALIDITY, 'validity')
    if ctx.is_true(validity == 1):
        # bits 0 and 7 are reserved
        ctx.reach('scsi')
        useful = status & 0x7e
        ctx.check(ctx.Or(*[ctx.Or(n == status, n == useful) for n in numbers(ctx, text)] + [False]), 'the error tells the SCSI status')
        names(ctx, text, useful, SAM_STATUS, 'SCSI status')
    elif ctx.is_true(validity == 2):
        ctx.reach('adapter')
        tells(ctx, text, adapter, 'adapter status')
        names(ctx, text, adapter, ADAPTER, 'adapter status')
    else:
        ctx.reach('unknown')


def text_aix_invalid(ctx, platform):
    from infi.asi.errors import AsiOSError
    einval = ctx.int('einval', 1, 65535)
    r, text = failed_with(ctx, platform, Answer(einval=einval, oserror=22))
    ctx.check(r.raised(AsiOSError), 'an error of the operating system')
    if r.ok:
        return
    tells(ctx, text, einval, 'number of the invalid field')
    names(ctx, text, einval, EINVAL, 'invalid field')
    ctx.reach('invalid')


for _p in ('aix', 'aix_libc'):
    harness('error-text', name='text_aix_invalid[%s]' % _p, reach=('invalid', 'named'), quick=dict(seconds=100),
            bounds='every number of an invalid field', platform=_p)(text_aix_invalid)


class Messages(Kernel):
    asked = None

    def FormatMessageA(self, flags, source, message, language, buf, size, arguments):
        self.asked = val(message)
        self.ctx.check((val(flags) & 0x1000) != 0, 'a message of the system')
        self.ctx.check(val(size) >= 40, 'room for the message')
        poke(addr(buf), list(b'the message of the system\r\n\0'))
        return 27


@harness('error-text', reach=('device', 'open', 'close', 'status'), quick=dict(seconds=100),
         bounds='every error code of 1 to 65535 of opening, using and closing a device; every SCSI status')
def text_windows(ctx):
    from infi.asi.errors import AsiSCSIError, AsiCheckConditionError
    what = ctx.choice('what', ('device', 'open', 'close', 'status'))
    code = ctx.int('code', 1, 65535)
    status = ctx.int('status', 1, 255)
    a = Answer(status=status if what == 'status' else 0, sense=sense_bytes(ctx), oserror=code if what == 'device' else None)
    cmd, cdb, out = command(ctx, 'read', 2, 6)
    k = env.use(ctx, Messages(ctx, [a]))
    m = env.import_win32()
    ctx.track_text()
    if what == 'open':
        k.open_fails = code
        r = ctx.outcome(lambda: m.Win32File('the path'))
    else:
        f = m.Win32File('the path')
        if what == 'close':
            k.close_fails = code
            r = ctx.outcome(f.close)
        else:
            r = ctx.outcome(lambda: run(m.Win32CommandExecuter(f), cmd))
    ctx.check(not r.ok, 'an error')
    if r.ok or isinstance(r.exc, AsiCheckConditionError):
        return
    text = str(r.exc)
    ctx.reach(what)
    if what == 'status':
        ctx.check(isinstance(r.exc, AsiSCSIError), 'a SCSI error')
        tells(ctx, text, status, 'SCSI status')
        return
    ctx.check(isinstance(r.exc, m.AsiWin32OSError), 'an error of the operating system')
    ctx.check(k.asked == code, 'the message is that of the error')
    tells(ctx, text, code, 'error code')
    ctx.check('the message of the system' in text, 'the error tells the message')
    ctx.check('the path' in text, 'the error tells the device')
