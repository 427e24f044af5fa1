"""What holds for every command: it is its own (nothing set in one command shows in another), it carries the CONTROL byte it
was given (SAM-5 5.2), it is executed as exactly one SCSI command, again and again, and an executer's error reaches the caller
as it is."""
from .api import harness, be, RecordingExecuter, run_command


def mk(module, cls, *args):
    """args: constants, or (name, lo, hi) for any number, or bytes, or what it is in each of the two commands"""
    def make(ctx, prefix):
        m = __import__('infi.asi.' + module, fromlist=['*'])
        values = [ctx.int(prefix + a[0], a[1], a[2]) if isinstance(a, tuple) else
                  a[prefix] if isinstance(a, dict) else a for a in args]
        return lambda: getattr(m, cls)(*values)
    return make


def vpd_page(page):
    def make(ctx, prefix):
        from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page
        return lambda: get_vpd_page(page)()
    return make


def ses_page(page, conf=False):
    def make(ctx, prefix):
        from infi.asi.cdb.diagnostic.ses_pages import get_ses_page
        return lambda: get_ses_page(page)(None) if conf else get_ses_page(page)()
    return make


BLOCK = bytes(range(256)) * 2
SIZE = {'a.': 512, 'b.': 128}
# name -> (how it is made, position of the CONTROL byte)
COMMANDS = {
    'read6': (mk('cdb.read', 'Read6Command', ('lba', 0, 2 ** 21 - 1), ('n', 0, 255), SIZE), 5),
    'read10': (mk('cdb.read', 'Read10Command', ('lba', 0, 2 ** 32 - 1), ('n', 0, 65535), SIZE), 9),
    'read12': (mk('cdb.read', 'Read12Command', ('lba', 0, 2 ** 32 - 1), ('n', 0, 2 ** 32 - 1), SIZE), 11),
    'read16': (mk('cdb.read', 'Read16Command', ('lba', 0, 2 ** 64 - 1), ('n', 0, 2 ** 32 - 1), SIZE), 15),
    'write6': (mk('cdb.write', 'Write6Command', ('lba', 0, 2 ** 21 - 1), BLOCK, SIZE), 5),
    'write10': (mk('cdb.write', 'Write10Command', ('lba', 0, 2 ** 32 - 1), BLOCK, SIZE), 9),
    'write12': (mk('cdb.write', 'Write12Command', ('lba', 0, 2 ** 32 - 1), BLOCK, SIZE), 11),
    'write16': (mk('cdb.write', 'Write16Command', ('lba', 0, 2 ** 64 - 1), BLOCK, SIZE), 15),
    'write_same10': (mk('cdb.write_same', 'WriteSame10Command', ('lba', 0, 2 ** 32 - 1), BLOCK, ('n', 0, 65535)), 9),
    'write_same16': (mk('cdb.write_same', 'WriteSame16Command', ('lba', 0, 2 ** 64 - 1), BLOCK, ('n', 0, 2 ** 32 - 1)), 15),
    'compare_and_write': (mk('cdb.compare_and_write', 'CompareAndWriteCommand', ('lba', 0, 2 ** 64 - 1), BLOCK * 2, 1), 15),
    'unmap': (mk('cdb.unmap', 'UnmapCommand', [(5, 7)]), 9),
    'unmap_nothing': (mk('cdb.unmap', 'UnmapCommand'), 9),
    'capacity10': (mk('cdb.read_capacity', 'ReadCapacity10Command', ('lba', 0, 2 ** 32 - 1)), 9),
    'capacity16': (mk('cdb.read_capacity', 'ReadCapacity16Command', ('lba', 0, 2 ** 64 - 1)), 15),
    'tur': (mk('cdb.tur', 'TestUnitReadyCommand'), 5),
    'luns': (mk('cdb.report_luns', 'ReportLunsCommand', ('select', 0, 255)), 11),
    'rtpg': (mk('cdb.rtpg', 'RTPGCommand'), 11),
    'reserve6': (mk('cdb.reserve', 'Reserve6Command'), 5),
    'reserve10': (mk('cdb.reserve', 'Reserve10Command', ('id', 0, 255)), 9),
    'release6': (mk('cdb.release', 'Release6Command'), 5),
    'release10': (mk('cdb.release', 'Release10Command', ('id', 256, 65535)), 9),
    'pr_in': (mk('cdb.persist.input', 'PersistentReserveInCommand', 0, ('alloc', 8, 65535)), 9),
    'pr_out': (mk('cdb.persist.output', 'PersistentReserveOutCommand', 1, ('key', 0, 2 ** 64 - 1), ('sakey', 0, 2 ** 64 - 1)), 9),
    'log_sense': (mk('cdb.log_sense', 'LogSenseCommand', ('page', 0x2e, 0x2f)), 9),
    'inquiry': (mk('cdb.inquiry.standard', 'StandardInquiryCommand'), 5),
    'vpd_80': (vpd_page(0x80), 5),
    'vpd_83': (vpd_page(0x83), 5),
    'vpd_unknown': (vpd_page(0xe1), 5),
    'ses_configuration': (ses_page(1), 5),
    'ses_status': (ses_page(2, True), 5),
    'ses_unknown': (ses_page(0xa0), 5),
}
NAMES = tuple(sorted(COMMANDS))
PARTS = 8           # run side by side


class Refuse(Exception):
    pass


def cdb(ctx, command):
    """the CDB a command sends, how much it transfers, and its data; the answer is not a command's business here, every executer refuses"""
    exe = RecordingExecuter(Refuse('not now'))
    r = ctx.outcome(lambda: run_command(command, exe))
    ctx.check(len(exe.commands) == 1, 'exactly one SCSI command is issued')
    ctx.check(r.raised(Refuse), 'the error of the executer reaches the caller')
    c = exe.commands[0]
    data = list(getattr(c, 'data', ()))
    return list(c.command) + [getattr(c, 'max_response_length', len(data))] + data


def set_control(command, naca, vendor, fresh):
    """in the CONTROL object the command has, or in one of its own"""
    c = command.control
    if c is None:
        from infi.asi.cdb.control import ControlBuffer
        command.control = ControlBuffer(naca=naca, vendor_specific=vendor)
    elif fresh:
        command.control = type(c)(naca=naca, vendor_specific=vendor)
    else:
        c.naca = naca
        c.vendor_specific = vendor


def with_control(bytes_, at, value):
    return bytes_[:at] + [value] + bytes_[at + 1:]


def command_independence(ctx, part):
    a_name = ctx.choice('a', NAMES[part::PARTS])
    i = NAMES.index(a_name)
    others = NAMES if ctx.thorough else tuple(NAMES[(i + k) % len(NAMES)] for k in (0, 1, 5, 11, 17))
    b_name = ctx.choice('b', others)
    (make_a, at_a), (make_b, at_b) = COMMANDS[a_name], COMMANDS[b_name]
    make_a, make_b = make_a(ctx, 'a.'), make_b(ctx, 'b.')
    naca = ctx.int('naca', 0, 1)
    vendor = ctx.int('vendor_specific', 0, 3)
    control = (vendor << 6) | (naca << 2)
    fresh = ctx.choice('fresh', (False, True))
    used = ctx.choice('used before', (False, True))
    plain_a, plain_b = cdb(ctx, make_a()), cdb(ctx, make_b())
    ctx.check(plain_a[at_a] == 0, 'the CONTROL byte is 0 unless it is set')
    a, b = make_a(), make_b()
    if used:
        ctx.eq(cdb(ctx, a), plain_a, 'two commands made alike send the same CDB')
        ctx.eq(cdb(ctx, b), plain_b, 'two commands made alike send the same CDB')
    set_control(a, naca, vendor, fresh)
    ctx.reach('set')
    ctx.eq(cdb(ctx, b), plain_b, 'a command does not carry what was set in another one')
    ctx.eq(cdb(ctx, a), with_control(plain_a, at_a, control), 'the CDB carries the CONTROL byte that was set')
    ctx.eq(cdb(ctx, make_b()), plain_b, 'a new command does not carry what was set in another one')
    ctx.eq(cdb(ctx, b), plain_b, 'a command does not carry what was set in another one')
    ctx.reach('again')
    ctx.eq(cdb(ctx, a), with_control(plain_a, at_a, control), 'a command sends the same CDB each time')
    ctx.eq(cdb(ctx, make_a()), plain_a, 'a new command does not carry what was set in another one of its class')


for _k in range(PARTS):
    harness('independent-commands', 'command_independence[%d]' % _k, part=_k, reach=('set', 'again'),
            quick=dict(seconds=300), thorough=dict(seconds=700),
            bounds='every pair of the %d commands (quick: each with itself and four others), arguments symbolic over the range of '
                   'their fields; any CONTROL byte, set in the object the command has or as a new one, before or after the '
                   'command was executed once' % len(NAMES))(command_independence)


class OtherFault(BaseException):
    """such as KeyboardInterrupt or GreenletExit"""


def faults():
    from infi.asi.errors import (AsiCheckConditionError, AsiRequestQueueFullError, AsiReservationConflictError, AsiSCSIError,
                                 AsiOSError)
    return {'check condition': lambda: AsiCheckConditionError(b'\x70', None), 'queue full': lambda: AsiRequestQueueFullError(),
            'conflict': lambda: AsiReservationConflictError(), 'scsi': lambda: AsiSCSIError('status'),
            'os': lambda: AsiOSError(5, 'no'), 'io': lambda: IOError(5, 'no'), 'interrupt': lambda: OtherFault()}


def command_faults(ctx, part):
    name = ctx.choice('a', NAMES[part::4])
    make = COMMANDS[name][0](ctx, 'a.')
    a = make()
    first = None
    fs = faults()
    for k in range(ctx.choice('n', (1, 2, 3) if ctx.thorough else (1, 2))):
        e = fs[ctx.choice('fault%d' % k, tuple(sorted(fs)) if ctx.thorough or k == 0 else ('interrupt', 'queue full'))]()
        exe = RecordingExecuter(e)
        r = ctx.outcome(lambda: run_command(a, exe))
        ctx.check(not r.ok and r.exc is e, 'the error of the executer reaches the caller as it is')
        ctx.check(len(exe.commands) == 1, 'a command that failed is not sent again')
        ctx.reach('failed')
        c = exe.commands[0]
        seen = (type(c), list(c.command), getattr(c, 'max_response_length', None), getattr(c, 'data', None))
        if first is None:
            first = seen
            continue
        ctx.reach('retried')
        ctx.check(seen[0] is first[0], 'executed again, the command has the same direction')
        ctx.eq(seen[1], first[1], 'executed again, the command sends the same CDB')
        ctx.check(seen[2] == first[2], 'executed again, the command expects as much data')
        ctx.check((seen[3] is None) == (first[3] is None), 'executed again, the command has the same direction')
        if seen[3] is not None:
            ctx.eq(seen[3], first[3], 'executed again, the command sends the same data')


for _k in range(4):
    harness('independent-commands', 'command_faults[%d]' % _k, part=_k, reach=('failed', 'retried'),
            quick=dict(seconds=300), thorough=dict(seconds=700),
            bounds='each of the %d commands, arguments symbolic over the range of their fields; 1..2 (3) executions that fail, the '
                   'first in any of 7 ways, others in 2 (7)' % len(NAMES))(command_faults)
