"""READ / WRITE / WRITE SAME / COMPARE AND WRITE / UNMAP command descriptor blocks (SBC-3)."""
from .api import harness, be, num, RecordingExecuter, run_command

BLOCK_SIZES = (1, 512, 520, 4096)


def sent(ctx, exe, kind):
    """the one command handed to the executer"""
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    ctx.check(len(exe.commands) == 1, 'exactly one command is issued')
    c = exe.commands[0]
    ctx.check(isinstance(c, SCSIReadCommand if kind == 'read' else SCSIWriteCommand), 'direction is ' + kind)
    return c


# (class, opcode, cdb length, lba bits, first lba byte, transfer length bits, first transfer byte)
READS = {6: ('Read6Command', 0x08, 6, 21, 8), 10: ('Read10Command', 0x28, 10, 32, 16),
         12: ('Read12Command', 0xa8, 12, 32, 32), 16: ('Read16Command', 0x88, 16, 64, 32)}
WRITES = {6: ('Write6Command', 0x0a, 6, 21, 8), 10: ('Write10Command', 0x2a, 10, 32, 16),
          12: ('Write12Command', 0xaa, 12, 32, 32), 16: ('Write16Command', 0x8a, 16, 64, 32)}


def expected_rw(size, opcode, lba, n, flags=0, group=0):
    if size == 6:
        return [opcode] + be(lba, 3) + [n, 0]
    if size == 10:
        return [opcode, flags] + be(lba, 4) + [group] + be(n, 2) + [0]
    if size == 12:
        return [opcode, flags] + be(lba, 4) + be(n, 4) + [group, 0]
    return [opcode, flags] + be(lba, 8) + be(n, 4) + [group, 0]


def read_cdb(ctx, size):
    import infi.asi.cdb.read as m
    cls, opcode, length, lba_bits, tl_bits = READS[size]
    lba = ctx.int('lba', 0, 2 ** lba_bits - 1)
    n = ctx.int('blocks', 0, 2 ** tl_bits - 1)
    bs = ctx.choice('block_size', BLOCK_SIZES)
    reply = ctx.bytes('reply', 8)
    exe = RecordingExecuter(reply)
    r = ctx.outcome(lambda: run_command(getattr(m, cls)(lba, n, block_size=bs), exe))
    ctx.check(r.ok, 'a read inside the device address range is accepted')
    if not r.ok:
        return
    ctx.reach('sent')
    c = sent(ctx, exe, 'read')
    ctx.eq(c.command, expected_rw(size, opcode, lba, n), 'CDB bytes')
    blocks = n
    if size == 6:
        blocks = ctx.ite(n == 0, 256, n)
    ctx.eq(c.max_response_length, blocks * bs, 'response length is blocks * block size')
    ctx.eq(r.value, reply, 'data read is returned unchanged')
    ctx.observe('cdb', c.command)
    ctx.observe('len', c.max_response_length)


for _s in READS:
    harness('rw-cdb', 'read_cdb_%d' % _s, reach=('sent',), size=_s,
            bounds='every LBA and transfer length the CDB can hold; block size in %r' % (BLOCK_SIZES,))(read_cdb)


def write_cdb(ctx, size):
    import infi.asi.cdb.write as m
    cls, opcode, length, lba_bits, tl_bits = WRITES[size]
    lba = ctx.int('lba', 0, 2 ** lba_bits - 1)
    bs = ctx.choice('block_size', BLOCK_SIZES)
    data = ctx.blob('data', 1, 2 ** 20)
    n = ctx.blob_len(data)
    ctx.assume(n % bs == 0)
    limit = 256 if size == 6 else 2 ** tl_bits - 1
    ctx.assume(n // bs <= limit)
    exe = RecordingExecuter(None)
    r = ctx.outcome(lambda: run_command(getattr(m, cls)(lba, data, block_size=bs), exe))
    ctx.check(r.ok, 'a write inside the device address range is accepted')
    if not r.ok:
        return
    ctx.reach('sent')
    c = sent(ctx, exe, 'write')
    blocks = n // bs
    ctx.eq(c.command, expected_rw(size, opcode, lba, (blocks & 0xff) if size == 6 else blocks), 'CDB bytes')
    ctx.check(c.data == data, 'the buffer is sent unchanged')
    ctx.observe('cdb', c.command)


for _s in WRITES:
    harness('rw-cdb', 'write_cdb_%d' % _s, reach=('sent',), size=_s,
            bounds='every LBA; buffers of 1..2^20 bytes (length symbolic, content opaque) holding whole blocks; block '
                   'size in %r' % (BLOCK_SIZES,))(write_cdb)


def write_content(ctx, size):
    """the payload bytes themselves reach the executer"""
    import infi.asi.cdb.write as m
    cls, opcode, length, lba_bits, tl_bits = WRITES[size]
    bs = ctx.choice('block_size', (1, 4))
    n = ctx.choice('blocks', (1, 2, 3))
    data = ctx.bytes('data', bs * n)
    exe = RecordingExecuter(None)
    run_command(getattr(m, cls)(7, data, block_size=bs), exe)
    c = sent(ctx, exe, 'write')
    ctx.reach('sent')
    ctx.eq(c.data, data, 'the buffer is sent unchanged')
    ctx.eq(c.command, expected_rw(size, opcode, 7, n), 'CDB bytes')


for _s in WRITES:
    harness('rw-cdb', 'write_content_%d' % _s, reach=('sent',), size=_s,
            bounds='payloads up to 12 bytes with symbolic content')(write_content)


def read_reply(ctx, size):
    """everything that was read reaches the caller"""
    import infi.asi.cdb.read as m
    cls, opcode, length, lba_bits, tl_bits = READS[size]
    bs, n = ctx.choice('shape', ((512, 1), (512, 127), (512, 255), (1, 200), (520, 130)) + (
        () if size == 6 else ((512, 256), (512, 600), (4096, 257), (1, 0))))
    want = bs * n
    reply = [(i + i // 256) & 0xff for i in range(want)]
    for i in range(min(4, want)):
        reply[(0, 1, want // 2, want - 1)[i]] = ctx.int('byte%d' % i, 0, 255)
    reply = bytes(reply)
    exe = RecordingExecuter(reply)
    r = ctx.outcome(lambda: run_command(getattr(m, cls)(9, n, block_size=bs), exe))
    ctx.check(r.ok, 'a read inside the device address range is accepted')
    if not r.ok:
        return
    ctx.reach('read')
    c = sent(ctx, exe, 'read')
    ctx.eq(c.max_response_length, want, 'response length is blocks * block size')
    ctx.eq(r.value, reply, 'data read is returned unchanged')


for _s in READS:
    harness('rw-cdb', 'read_reply_%d' % _s, reach=('read',), size=_s, quick=dict(seconds=250),
            bounds='answers of 0 to 1 MiB, four bytes symbolic')(read_reply)


# flags of the CDBs, set on the command object before it is executed
FLAGS = {
    ('read', 10): (('fua_nv', 1, 1), ('fua', 3, 1), ('dpo', 4, 1), ('rdprotect', 5, 3)),
    ('read', 12): (('fua', 3, 1), ('dpo', 4, 1)),
    ('read', 16): (('fua_nv', 1, 1), ('fua', 3, 1), ('dpo', 4, 1)),
    ('write', 10): (('fua_nv', 1, 1), ('fua', 3, 1), ('dpo', 4, 1), ('wrprotect', 5, 3)),
    ('write', 12): (('fua_nv', 1, 1), ('fua', 3, 1), ('dpo', 4, 1), ('wrprotect', 5, 3)),
    ('write', 16): (('fua_nv', 1, 1), ('fua', 3, 1), ('dpo', 4, 1), ('wrprotect', 5, 3)),
}


def rw_flags(ctx, kind, size):
    import infi.asi.cdb.read as mr
    import infi.asi.cdb.write as mw
    cls, opcode, length, lba_bits, tl_bits = (READS if kind == 'read' else WRITES)[size]
    lba = ctx.int('lba', 0, 2 ** lba_bits - 1)
    if kind == 'read':
        n = ctx.int('blocks', 0, 2 ** tl_bits - 1)
        cmd = getattr(mr, cls)(lba, n)
    else:
        n = 1
        cmd = getattr(mw, cls)(lba, b'\x00' * 512)
    flags = 0
    for name, shift, width in FLAGS[(kind, size)]:
        v = ctx.int(name, 0, 2 ** width - 1)
        setattr(cmd, name, v)
        flags = flags | (v << shift)
    group = 0
    if not (kind == 'read' and size == 12):
        group = ctx.int('group', 0, 31)
        cmd.group_number = group
    exe = RecordingExecuter(b'')
    run_command(cmd, exe)
    c = sent(ctx, exe, kind)
    ctx.reach('sent')
    ctx.eq(c.command, expected_rw(size, opcode, lba, n, flags, group), 'flags, protection and group number bits')
    ctx.observe('cdb', c.command)


for _k in FLAGS:
    harness('rw-cdb', '%s_flags_%d' % _k, reach=('sent',), kind=_k[0], size=_k[1],
            bounds='every value of every flag, protection and group field')(rw_flags)


# ------------------------------------------------------------------------------------- arguments that do not fit
def faithful(ctx, make, fields, label):
    """build and run a command with arbitrary (also out-of-range) arguments: either it is refused and nothing is
    sent, or the CDB that is sent carries exactly the arguments"""
    exe = RecordingExecuter(b'')
    r = ctx.outcome(lambda: run_command(make(), exe))
    if not r.ok:
        ctx.reach('refused')
        ctx.check(len(exe.commands) == 0, label + ': a refused command is not sent')
        return None
    ctx.reach('accepted')
    ctx.check(len(exe.commands) == 1, label + ': exactly one command is sent')
    cdb = list(exe.commands[0].command)
    for name, value, start, n, mask in fields:
        got = num(cdb, start, n)
        if mask is not None:
            got = got & mask
        ctx.check(got == value, '%s: %s reaches the device unaltered' % (label, name))
    return exe.commands[0]


def read_any(ctx, size):
    import infi.asi.cdb.read as m
    cls, opcode, length, lba_bits, tl_bits = READS[size]
    lba = ctx.int('lba', -2 ** (lba_bits + 2), 2 ** (lba_bits + 2))
    n = ctx.int('blocks', -2 ** (tl_bits + 2), 2 ** (tl_bits + 2))
    lf = {6: ('lba', lba, 1, 3, None), 10: ('lba', lba, 2, 4, None), 12: ('lba', lba, 2, 4, None),
          16: ('lba', lba, 2, 8, None)}[size]
    tf = {6: ('blocks', n, 4, 1, None), 10: ('blocks', n, 7, 2, None), 12: ('blocks', n, 6, 4, None),
          16: ('blocks', n, 10, 4, None)}[size]
    faithful(ctx, lambda: getattr(m, cls)(lba, n), [lf, tf], 'READ(%d)' % size)


for _s in READS:
    harness('rw-args', 'read_any_%d' % _s, reach=('refused', 'accepted'), size=_s,
            bounds='LBA and transfer length from -4 to +4 times the range of their field')(read_any)


def write_any(ctx, size):
    import infi.asi.cdb.write as m
    cls, opcode, length, lba_bits, tl_bits = WRITES[size]
    lba = ctx.int('lba', -2 ** (lba_bits + 2), 2 ** (lba_bits + 2))
    bs = ctx.choice('block_size', BLOCK_SIZES)
    data = ctx.blob('data', 0, 2 ** 19)
    n = ctx.blob_len(data)
    lf = {6: ('lba', lba, 1, 3, None), 10: ('lba', lba, 2, 4, None), 12: ('lba', lba, 2, 4, None),
          16: ('lba', lba, 2, 8, None)}[size]
    c = faithful(ctx, lambda: getattr(m, cls)(lba, data, block_size=bs), [lf], 'WRITE(%d)' % size)
    if c is not None:
        off, w = {6: (4, 1), 10: (7, 2), 12: (6, 4), 16: (10, 4)}[size]
        got = num(c.command, off, w)
        if size == 6:
            got = ctx.ite(got == 0, 256, got)
        ctx.check(got * bs == n, 'WRITE(%d): blocks in the CDB cover the buffer exactly' % size)


for _s in WRITES:
    harness('rw-args', 'write_any_%d' % _s, reach=('refused', 'accepted'), size=_s,
            bounds='LBA from -4 to +4 times the field range; buffers of 0..2^19 bytes; block size in %r'
                   % (BLOCK_SIZES,))(write_any)


# ------------------------------------------------------------------------ WRITE SAME, COMPARE AND WRITE, UNMAP
def write_same(ctx, size):
    import infi.asi.cdb.write_same as m
    lba_bits, n_bits = (32, 16) if size == 10 else (64, 32)
    cls = getattr(m, 'WriteSame%dCommand' % size)
    lba = ctx.int('lba', -2 ** (lba_bits + 1), 2 ** (lba_bits + 1))
    n = ctx.int('blocks', -2 ** (n_bits + 1), 2 ** (n_bits + 1))
    bs = ctx.choice('block_size', (512, 520, 4096))
    data = ctx.blob('data', 0, 16384)
    flags = 0
    names = [('lbdata', 1, 1), ('pbdata', 2, 1), ('wrprotect', 5, 3)] + ([('unmap', 3, 1)] if size == 16 else [])
    vals = {}
    for name, shift, width in names:
        vals[name] = ctx.int(name, 0, 2 ** width - 1)
        flags = flags | (vals[name] << shift)
    group = ctx.int('group', 0, 31)

    def make():
        cmd = cls(lba, data, number_of_blocks=n, block_size=bs)
        for name in vals:
            setattr(cmd, name, vals[name])
        cmd.group_number = group
        return cmd
    exe = RecordingExecuter(None)
    r = ctx.outcome(lambda: run_command(make(), exe))
    ok = ctx.And(lba >= 0, lba < 2 ** lba_bits, n >= 0, n < 2 ** n_bits, ctx.blob_len(data) % bs == 0)
    if not r.ok:
        ctx.reach('refused')
        ctx.check(len(exe.commands) == 0, 'a refused command is not sent')
        ctx.check(ctx.Not(ok), 'WRITE SAME of whole blocks inside the device is accepted')
        return
    ctx.reach('sent')
    ctx.check(ok, 'WRITE SAME that does not fit the CDB or is not whole blocks is refused')
    c = sent(ctx, exe, 'write')
    if size == 10:
        want = [0x41, flags] + be(lba, 4) + [group] + be(n, 2) + [0]
    else:
        want = [0x93, flags] + be(lba, 8) + be(n, 4) + [group, 0]
    ctx.eq(c.command, want, 'CDB bytes')
    ctx.check(c.data == data, 'the buffer is sent unchanged')
    ctx.observe('cdb', c.command)


for _s in (10, 16):
    harness('write-same-caw', 'write_same_%d' % _s, reach=('refused', 'sent'), size=_s,
            bounds='LBA and block count from -2 to +2 times the field range; buffers up to 16 KiB (length symbolic); '
                   'block size in (512, 520, 4096); all flag values')(write_same)


@harness('write-same-caw', reach=('sent',), bounds='the default block count of WRITE SAME')
def write_same_default(ctx):
    import infi.asi.cdb.write_same as m
    size = ctx.choice('size', (10, 16))
    lba = ctx.int('lba', 0, 2 ** 32 - 1)
    exe = RecordingExecuter(None)
    run_command(getattr(m, 'WriteSame%dCommand' % size)(lba, b'\xa5' * 512), exe)
    c = sent(ctx, exe, 'write')
    ctx.reach('sent')
    if size == 10:
        ctx.eq(c.command, [0x41, 0] + be(lba, 4) + [0, 0, 1, 0], 'CDB bytes')
    else:
        ctx.eq(c.command, [0x93, 0] + be(lba, 8) + [0, 0, 0, 1, 0, 0], 'CDB bytes')
    ctx.eq(c.data, b'\xa5' * 512, 'the buffer is sent unchanged')


@harness('write-same-caw', reach=('sent', 'refused'),
         bounds='LBA and block count from -2 to +2 times the field range; buffers up to 16 KiB (length symbolic); '
                'block size in (512, 520, 4096); all flag values')
def compare_and_write(ctx):
    import infi.asi.cdb.compare_and_write as m
    lba = ctx.int('lba', -2 ** 65, 2 ** 65)
    n = ctx.int('blocks', -2 ** 9, 2 ** 9)
    bs = ctx.choice('block_size', (512, 520, 4096))
    data = ctx.blob('data', 0, 16384)
    flags = 0
    vals = {}
    for name, shift, width in (('fua_nv', 1, 1), ('fua', 3, 1), ('dpo', 4, 1), ('wrprotect', 5, 3)):
        vals[name] = ctx.int(name, 0, 2 ** width - 1)
        flags = flags | (vals[name] << shift)
    group = ctx.int('group', 0, 31)

    def make():
        cmd = m.CompareAndWriteCommand(lba, data, n, block_size=bs)
        for name in vals:
            setattr(cmd, name, vals[name])
        cmd.group_number = group
        return cmd
    exe = RecordingExecuter(None)
    r = ctx.outcome(lambda: run_command(make(), exe))
    fits = ctx.And(lba >= 0, lba < 2 ** 64, n >= 0, n < 2 ** 8)
    whole = ctx.blob_len(data) % bs == 0
    proper = ctx.And(fits, n >= 1, ctx.blob_len(data) == 2 * n * bs)
    if not r.ok:
        ctx.reach('refused')
        ctx.check(len(exe.commands) == 0, 'a refused command is not sent')
        ctx.check(ctx.Not(proper), 'a well-formed COMPARE AND WRITE is accepted')
        return
    ctx.reach('sent')
    ctx.check(ctx.And(fits, whole), 'arguments that do not fit the CDB, or a ragged buffer, are refused')
    c = sent(ctx, exe, 'write')
    ctx.eq(c.command, [0x89, flags] + be(lba, 8) + [0, 0, 0, n, group, 0], 'CDB bytes')
    ctx.check(c.data == data, 'the buffer is sent unchanged')
    ctx.observe('cdb', c.command)


def unmap(ctx, n, wide=True):
    import infi.asi.cdb.unmap as m
    lo, hi_lba, hi_n = (-1, 2 ** 65, 2 ** 33) if wide else (0, 2 ** 64 - 1, 2 ** 32 - 1)
    ranges = []
    fits = True
    for i in range(n):
        lba = ctx.int('lba%d' % i, lo * hi_lba, hi_lba)
        cnt = ctx.int('count%d' % i, lo * hi_n, hi_n)
        ranges.append((lba, cnt))
        fits = ctx.And(fits, lba >= 0, lba < 2 ** 64, cnt >= 0, cnt < 2 ** 32)
    group = ctx.int('group', 0, 31)

    def make():
        cmd = m.UnmapCommand(list(ranges))
        cmd.GROUP_NUMBER = group
        return cmd
    exe = RecordingExecuter(None)
    r = ctx.outcome(lambda: run_command(make(), exe))
    if not r.ok:
        ctx.reach('refused')
        ctx.check(len(exe.commands) == 0, 'a refused command is not sent')
        ctx.check(ctx.Not(fits), 'ranges that fit their fields are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'ranges that do not fit their fields are refused')
    c = sent(ctx, exe, 'write')
    want = be(6 + 16 * n, 2) + be(16 * n, 2) + [0, 0, 0, 0]
    for lba, cnt in ranges:
        want += be(lba, 8) + be(cnt, 4) + [0, 0, 0, 0]
    ctx.eq(c.data[2:], want[2:], 'block descriptors list every range, in order')
    ctx.eq(c.data[:2], want[:2], 'UNMAP DATA LENGTH counts the bytes that follow it')
    ctx.eq(c.command, [0x42, 0, 0, 0, 0, 0, group] + be(8 + 16 * n, 2) + [0], 'CDB bytes')
    ctx.observe('cdb', c.command)
    ctx.observe('data', c.data)


for _n in (0, 1, 2, 3, 8, 16):
    harness('unmap', 'unmap_%d' % _n, reach=('sent',), n=_n,
            bounds='%d ranges, each LBA and count from -2 to +2 times the field range' % _n)(unmap)
for _n in (17, 255):
    harness('unmap', 'unmap_%d_in_range' % _n, reach=('sent',), n=_n, wide=False,
            bounds='%d ranges, every LBA and count that fits' % _n)(unmap)


@harness('unmap', reach=('sent', 'refused'), quick=dict(seconds=250),
         bounds='256, 1000, 4095 (the most the 16-bit lengths can tell) and 4096 ranges, first, middle and last symbolic')
def unmap_many(ctx):
    import infi.asi.cdb.unmap as m
    n = ctx.choice('ranges', (256, 1000, 4095, 4096))
    ranges = [(1000 * i, i & 0xfff) for i in range(n)]
    for i in (0, n // 2, n - 1):
        ranges[i] = (ctx.int('lba%d' % i, 0, 2 ** 64 - 1), ctx.int('count%d' % i, 0, 2 ** 32 - 1))
    exe = RecordingExecuter(None)
    r = ctx.outcome(lambda: run_command(m.UnmapCommand(list(ranges)), exe))
    if n > 4095:
        ctx.reach('refused')
        ctx.check(not r.ok and len(exe.commands) == 0, 'more ranges than the lengths can tell are refused')
        return
    ctx.check(r.ok, 'ranges that fit are accepted')
    if not r.ok:
        return
    ctx.reach('sent')
    c = sent(ctx, exe, 'write')
    want = be(6 + 16 * n, 2) + be(16 * n, 2) + [0, 0, 0, 0]
    for lba, cnt in ranges:
        want += be(lba, 8) + be(cnt, 4) + [0, 0, 0, 0]
    ctx.eq(c.data, want, 'the parameter list has every range, in order')
    ctx.eq(c.command, [0x42, 0, 0, 0, 0, 0, 0] + be(8 + 16 * n, 2) + [0], 'CDB bytes')


@harness('unmap', reach=('a', 'b'), bounds='two commands built one after the other, 0..2 ranges each')
def unmap_independent(ctx):
    """building one command does not leak ranges into the next"""
    import infi.asi.cdb.unmap as m
    k1 = ctx.pick('k1', 0, 2)
    k2 = ctx.pick('k2', 0, 2)
    r1 = [(ctx.int('a%d' % i, 0, 2 ** 64 - 1), ctx.int('b%d' % i, 0, 2 ** 32 - 1)) for i in range(k1)]
    r2 = [(ctx.int('c%d' % i, 0, 2 ** 64 - 1), ctx.int('d%d' % i, 0, 2 ** 32 - 1)) for i in range(k2)]
    c1 = m.UnmapCommand(r1) if k1 else m.UnmapCommand()
    c2 = m.UnmapCommand(r2) if k2 else m.UnmapCommand()
    for label, cmd, rs in (('b', c2, r2), ('a', c1, r1)):
        exe = RecordingExecuter(None)
        run_command(cmd, exe)
        ctx.reach(label)
        want = []
        for lba, cnt in rs:
            want += be(lba, 8) + be(cnt, 4) + [0, 0, 0, 0]
        ctx.eq(exe.commands[0].data[8:], want, 'each command carries its own ranges')
        ctx.eq(exe.commands[0].command[7:9], be(8 + 16 * len(rs), 2), 'parameter list length')
