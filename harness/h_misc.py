"""Capacity, TEST UNIT READY, LOG SENSE, RECEIVE COPY OPERATING PARAMETERS, REPORT LUNS, RTPG, RESERVE / RELEASE."""
from .api import harness, be, num, bits, RecordingExecuter, run_command
from .h_block import sent


def one_command(ctx, make, reply, kind='read'):
    """run a command; returns (outcome, the command sent or None)"""
    exe = RecordingExecuter(reply)
    r = ctx.outcome(lambda: run_command(make(), exe))
    ctx.check(len(exe.commands) <= 1, 'at most one command is issued')
    if not exe.commands:
        return r, None
    return r, sent(ctx, exe, kind)


# ---------------------------------------------------------------------------------------------------- READ CAPACITY
@harness('read-capacity', reach=('sent', 'refused'), bounds='LBA from -4x to +4x of the field, pmi 0 and 1')
def read_capacity_cdb(ctx):
    import infi.asi.cdb.read_capacity as m
    size = ctx.choice('size', (10, 16))
    width = 32 if size == 10 else 64
    lba = ctx.int('lba', -2 ** (width + 2), 2 ** (width + 2))
    pmi = ctx.int('pmi', 0, 1)
    data = ctx.bytes('data', 8 if size == 10 else 32)
    cls = getattr(m, 'ReadCapacity%dCommand' % size)
    r, c = one_command(ctx, lambda: cls(logical_block_address=lba, pmi=pmi), data)
    fits = ctx.And(lba >= 0, lba < 2 ** width)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'an LBA that fits the CDB is accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'an LBA that does not fit is refused')
    if size == 10:
        ctx.eq(c.command, [0x25, 0] + be(lba, 4) + [0, 0, pmi, 0], 'READ CAPACITY(10) CDB')
        ctx.check(c.max_response_length == 8, 'READ CAPACITY(10) expects 8 bytes')
    else:
        ctx.eq(c.command, [0x9e, 0x10] + be(lba, 8) + be(32, 4) + [pmi, 0], 'READ CAPACITY(16) CDB')
        ctx.check(c.max_response_length == 32, 'the expected length equals the ALLOCATION LENGTH of the CDB')
    ctx.observe('cdb', c.command)


@harness('read-capacity', reach=('decoded', 'short'), bounds='every response of 0..16 bytes, fully symbolic')
def read_capacity_10(ctx):
    import infi.asi.cdb.read_capacity as m
    n = ctx.pick('n', 0, 16)
    data = ctx.bytes('data', n)
    r, c = one_command(ctx, lambda: m.ReadCapacity10Command(), data)
    if n < 8:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response too short to hold the capacity is an error')
        return
    ctx.check(r.ok, 'a full response is decoded')
    ctx.reach('decoded')
    ctx.eq(r.value.last_logical_block_address, num(data, 0, 4), 'last LBA')
    ctx.eq(r.value.block_length_in_bytes, num(data, 4, 4), 'block length')


@harness('read-capacity', reach=('decoded', 'short'), bounds='every response of 0..40 bytes, fully symbolic')
def read_capacity_16(ctx):
    import infi.asi.cdb.read_capacity as m
    n = ctx.pick('n', 0, 40)
    data = ctx.bytes('data', n)
    r, c = one_command(ctx, lambda: m.ReadCapacity16Command(), data)
    if n < 14:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response too short to hold the capacity is an error')
        return
    if n < 32:
        if not r.ok:
            return
    ctx.check(r.ok, 'a full response is decoded')
    ctx.reach('decoded')
    v = r.value
    for name, want in (('last_logical_block_address', num(data, 0, 8)), ('block_length_in_bytes', num(data, 8, 4)),
                       ('prot_en', bits(data[12], 0, 0)), ('p_type', bits(data[12], 3, 1)),
                       ('logical_blocks_per_physical_block', bits(data[13], 3, 0)),
                       ('p_i_exponent', bits(data[13], 7, 4)), ('tpe', bits(data[14], 7, 7)),
                       ('troz', bits(data[14], 6, 6)), ('lowest_aligned_lba_msb', bits(data[14], 5, 0)),
                       ('lowest_aligned_lba_lsb', data[15])):
        ctx.eq(getattr(v, name), want, name)
        ctx.observe(name, getattr(v, name))


# -------------------------------------------------------------------------------- TUR, LOG SENSE, RECEIVE COPY PARAMS
@harness('simple-commands', reach=('ok',), bounds='the one CDB, any reply')
def test_unit_ready(ctx):
    import infi.asi.cdb.tur as m
    data = ctx.bytes('data', ctx.pick('n', 0, 2))
    r, c = one_command(ctx, m.TestUnitReadyCommand, data)
    ctx.reach('ok')
    ctx.eq(c.command, [0] * 6, 'TEST UNIT READY CDB')
    ctx.check(c.max_response_length == 0, 'no data is expected')
    ctx.check(r.ok and r.value is True, 'the result is True')


@harness('simple-commands', reach=('sent', 'refused'),
         bounds='page, subpage, allocation length from -4x to +4x of their fields; replies of up to 4 bytes')
def log_sense(ctx):
    import infi.asi.cdb.log_sense as m
    page = ctx.int('page', -256, 256)
    sub = ctx.int('subpage', -1024, 1024)
    alloc = ctx.int('alloc', -2 ** 18, 2 ** 18)
    data = ctx.bytes('data', ctx.pick('n', 0, 4))
    r, c = one_command(ctx, lambda: m.LogSenseCommand(page, sub, alloc), data)
    fits = ctx.And(page >= 0, page < 64, sub >= 0, sub < 256, alloc >= 0, alloc < 65536)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(c.command, [0x4d, 0, page, sub, 0, 0, 0] + be(alloc, 2) + [0], 'LOG SENSE CDB')
    ctx.check(c.max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')
    ctx.eq(r.value, data, 'the log page is returned unchanged')
    ctx.observe('cdb', c.command)


@harness('simple-commands', reach=('sent',), bounds='every value of page control, SP and parameter pointer')
def log_sense_fields(ctx):
    import infi.asi.cdb.log_sense as m
    page = ctx.int('page', 0, 63)
    pc = ctx.int('pc', 0, 3)
    sp = ctx.int('sp', 0, 1)
    ptr = ctx.int('ptr', 0, 65535)

    def make():
        cmd = m.LogSenseCommand(page)
        cmd.pc, cmd.sp, cmd.parameter_pointer = pc, sp, ptr
        return cmd
    r, c = one_command(ctx, make, b'')
    ctx.reach('sent')
    ctx.eq(c.command, [0x4d, sp, page | (pc << 6), 0, 0] + be(ptr, 2) + be(396, 2) + [0], 'LOG SENSE CDB')


@harness('simple-commands', reach=('sent', 'refused'), bounds='allocation length from -4x to +4x of the field')
def receive_copy_cdb(ctx):
    import infi.asi.cdb.receive_copy_operating_parameters as m
    alloc = ctx.int('alloc', -2 ** 34, 2 ** 34)
    data = ctx.bytes('data', 44)
    ctx.assume(data[43] == 0)
    r, c = one_command(ctx, lambda: m.ReceiveCopyOperatingParametersCommand(allocation_length=alloc), data)
    fits = ctx.And(alloc >= 0, alloc < 2 ** 32)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'an allocation length that fits is accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'an allocation length that does not fit is refused')
    ctx.eq(c.command, [0x84, 3, 0, 0, 0, 0, 0, 0, 0, 0] + be(alloc, 4) + [0, 0], 'RECEIVE COPY PARAMETERS CDB')
    ctx.check(c.max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')


RECEIVE_COPY = (('available_data', 0, 4), ('max_cscd_descriptor_count', 8, 2), ('max_segment_descriptor_count', 10, 2),
                ('max_descriptor_list_length', 12, 4), ('max_segment_length', 16, 4), ('max_inline_data_length', 20, 4),
                ('held_data_limit', 24, 4), ('max_stream_device_transfer_size', 28, 4),
                ('total_concurrent_copies', 34, 2), ('max_concurrent_copies', 36, 1),
                ('data_segment_granularity', 37, 1), ('inline_data_granularity', 38, 1),
                ('held_data_granularity', 39, 1))


@harness('simple-commands', reach=('decoded', 'short'), thorough=dict(seconds=400),
         bounds='responses of 40..52 bytes (44..76 thorough), fully symbolic, any descriptor list length')
def receive_copy_response(ctx):
    import infi.asi.cdb.receive_copy_operating_parameters as m
    n = ctx.pick('n', 40, 76 if ctx.thorough else 52)
    data = ctx.bytes('data', n)
    r, c = one_command(ctx, lambda: m.ReceiveCopyOperatingParametersCommand(allocation_length=4096), data)
    if n < 44:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response without the descriptor list length is an error')
        return
    whole = data[43] <= n - 44
    if not ctx.is_true(whole):
        if not r.ok:
            return
        ctx.eq(list(r.value.implemented_descriptor_list), list(data)[44:], 'a truncated list holds what was sent')
        return
    ctx.check(r.ok, 'a complete response is decoded')
    ctx.reach('decoded')
    v = r.value
    for name, start, size in RECEIVE_COPY:
        ctx.eq(getattr(v, name), num(data, start, size), name)
    ctx.check((v.snlid & 1) == bits(data[4], 0, 0), 'SNLID')
    count = len(v.implemented_descriptor_list)
    ctx.check(count == data[43], 'number of implemented descriptors')
    ctx.eq(list(v.implemented_descriptor_list), list(data)[44:44 + count], 'implemented descriptors')
    ctx.observe('list', list(v.implemented_descriptor_list))


# ------------------------------------------------------------------------------------------------------ REPORT LUNS
@harness('report-luns', reach=('sent', 'refused'),
         bounds='SELECT REPORT and allocation length from -4x to +4x of their fields; empty LUN list')
def report_luns_cdb(ctx):
    import infi.asi.cdb.report_luns as m
    select = ctx.int('select', -1024, 1024)
    alloc = ctx.int('alloc', -2 ** 34, 2 ** 34)
    r, c = one_command(ctx, lambda: m.ReportLunsCommand(select_report=select, allocation_length=alloc), b'\x00' * 8)
    fits = ctx.And(select >= 0, select < 256, alloc >= 0, alloc < 2 ** 32)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(c.command, [0xa0, 0, select, 0, 0, 0] + be(alloc, 4) + [0, 0], 'REPORT LUNS CDB')
    ctx.check(c.max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')


@harness('report-luns', reach=('decoded', 'refused'), bounds='0..4 (8 thorough) LUNs, all 64 bits of each symbolic')
def report_luns_list(ctx):
    import infi.asi.cdb.report_luns as m
    k = ctx.pick('luns', 0, 8 if ctx.thorough else 4)
    luns = [ctx.int('lun%d' % i, 0, 2 ** 64 - 1) for i in range(k)]
    allow = ctx.choice('allow_other_formats', (False, True))
    data = be(8 * k, 4) + [0, 0, 0, 0]
    for l in luns:
        data += be(l, 8)
    r, c = one_command(ctx, lambda: m.ReportLunsCommand(allow_unsupported_addressing_format=allow), bytes(data))
    simple = True
    for l in luns:
        simple = ctx.And(simple, (l & 0xC000FFFFFFFFFFFF) == 0)
    if not r.ok:
        ctx.reach('refused')
        ctx.check(r.raised(m.UnsupportedReportLuns), 'the error names the unsupported LUN format')
        ctx.check(ctx.And(ctx.Not(simple), not allow), 'single-level LUNs are accepted')
        return
    ctx.reach('decoded')
    if not allow:
        ctx.check(simple, 'a LUN that is not in simple single-level format is not silently reported as one')
    ctx.eq(list(r.value.lun_list), [l >> 48 for l in luns], 'every LUN reported, in order')
    ctx.check(r.value.lun_list_length == 8 * k, 'length')
    ctx.observe('luns', list(r.value.lun_list))


@harness('report-luns', reach=('decoded',), bounds='0..3 LUNs, all 64 bits of each symbolic, or those of the simple format')
def report_luns_hex(ctx):
    """the texts that tell the whole LUNs, whatever their addressing format"""
    import infi.asi.cdb.report_luns as m
    k = ctx.pick('luns', 0, 3)
    allow = ctx.choice('allow_other_formats', (False, True))
    luns = [ctx.int('lun%d' % i, 0, 2 ** 64 - 1) if allow else ctx.int('lun%d' % i, 0, 16383) << 48 for i in range(k)]
    data = be(8 * k, 4) + [0, 0, 0, 0]
    for l in luns:
        data += be(l, 8)
    ctx.track_text()
    r, c = one_command(ctx, lambda: m.ReportLunsCommand(allow_unsupported_addressing_format=allow), bytes(data))
    ctx.check(r.ok, 'a complete list is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    texts = list(r.value.hex_lun_list)
    ctx.check(len(texts) == k, 'a text for every LUN')
    for t, l in zip(texts, luns):
        n = ctx.outcome(lambda: int(t, 16))
        ctx.check(n.ok and hex(n.value) == t, 'a hexadecimal number')
        if n.ok:
            ctx.check(ctx.text_value(n.value) == l, 'the text is that of the whole LUN')
    ctx.eq(list(r.value.lun_list), [l >> 48 for l in luns], 'every LUN reported, in order')


@harness('report-luns', reach=('decoded',), quick=dict(seconds=250),
         bounds='lists of 31, 32, 255, 256, 257, 600 and 2047 LUNs (what the default allocation length holds) and of 2048, '
                'the ends and the middle symbolic')
def report_luns_many(ctx):
    import infi.asi.cdb.report_luns as m
    k = ctx.choice('luns', (31, 32, 255, 256, 257, 600, 2047, 2048))
    alloc = 8 + 8 * k if k > 2047 else 16384
    luns = [(7 * i + 3) % 16384 << 48 for i in range(k)]
    for i in (0, k // 2, k - 2, k - 1):
        luns[i] = ctx.int('lun%d' % i, 0, 16383) << 48
    data = be(8 * k, 4) + [0, 0, 0, 0]
    for l in luns:
        data += be(l, 8)
    r, c = one_command(ctx, lambda: m.ReportLunsCommand(allocation_length=alloc), bytes(data))
    ctx.check(r.ok, 'a complete list is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(len(r.value.lun_list) == k, 'every LUN, and no other')
    ctx.eq(list(r.value.lun_list), [l >> 48 for l in luns], 'every LUN reported, in order')


@harness('report-luns', reach=('list', 'error'),
         bounds='LUN LIST LENGTH any 32-bit value, 0..3 LUNs present (0..6 thorough), response cut at any byte')
def report_luns_truncated(ctx):
    """the list never has LUNs that were not in the response"""
    import infi.asi.cdb.report_luns as m
    length = ctx.int('length', 0, 2 ** 32 - 1)
    n = ctx.pick('n', 0, 8 + 8 * (6 if ctx.thorough else 3))
    body = ctx.bytes('body', max(n - 8, 0))
    data = (be(length, 4) + [0, 0, 0, 0])[:n] + list(body)
    ctx.assume(ctx.And(*[body[i] == 0 for i in range(len(body)) if i % 8 != 1]))
    r, c = one_command(ctx, lambda: m.ReportLunsCommand(), bytes(data))
    if not r.ok:
        ctx.reach('error')
        ctx.check(ctx.Or(n < 8, length > n - 8, (length & 7) != 0), 'a complete list is decoded')
        return
    got = list(r.value.lun_list)
    if n < 8:
        ctx.check(ctx.And(n >= 4, length == 0, len(got) == 0), 'a response without the header is an error')
        return
    ctx.reach('list')
    ctx.check(ctx.And(8 * len(got) <= length, 8 * len(got) <= n - 8), 'no LUN is made up')
    ctx.check(8 * len(got) == length, 'a list is complete')
    ctx.eq(got, [body[8 * i + 1] for i in range(len(got))], 'LUNs')


@harness('report-luns', reach=('raw', 'error'), bounds='allocation length 0..15, replies of 0..16 bytes')
def report_luns_raw(ctx):
    import infi.asi.cdb.report_luns as m
    alloc = ctx.int('alloc', 0, 15)
    n = ctx.pick('n', 0, 16)
    data = ctx.bytes('data', n)
    r, c = one_command(ctx, lambda: m.ReportLunsCommand(allocation_length=alloc), data)
    if r.ok:
        ctx.reach('raw')
        ctx.check(alloc == n, 'a short buffer is returned only when it is what was asked for')
        ctx.eq(r.value, data, 'the raw bytes')
    else:
        ctx.reach('error')
        ctx.check(alloc != n, 'the requested buffer is returned')


# ------------------------------------------------------------------------------------- REPORT TARGET PORT GROUPS
@harness('rtpg', reach=('sent', 'refused'), bounds='format -4..11, allocation length from -4x to +4x of the field')
def rtpg_cdb(ctx):
    import infi.asi.cdb.rtpg as m
    fmt = ctx.int('format', -4, 11)
    alloc = ctx.int('alloc', -2 ** 34, 2 ** 34)
    r, c = one_command(ctx, lambda: m.RTPGCommand(parameter_data_format=fmt, allocation_length=alloc), b'\x00' * 8)
    fits = ctx.And(fmt >= 0, fmt <= 1, alloc >= 0, alloc < 2 ** 32)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(c.command, [0xa3, 0x0a | (fmt << 5), 0, 0, 0, 0] + be(alloc, 4) + [0, 0], 'REPORT TARGET PORT GROUPS CDB')
    ctx.check(c.max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')


TPG_BITS = (('asymetric_access_state', 0, 3, 0), ('pref', 0, 7, 7), ('ao_sup', 1, 0, 0), ('an_sup', 1, 1, 1),
            ('s_sup', 1, 2, 2), ('u_sup', 1, 3, 3), ('lbd_sup', 1, 4, 4), ('o_sup', 1, 6, 6), ('t_sup', 1, 7, 7))


def group_shapes(ctx, max_groups, max_ports):
    return [ctx.pick('ports%d' % i, 0, max_ports) for i in range(ctx.pick('groups', 0, max_groups))]


def rtpg_response(ctx, fmt):
    import infi.asi.cdb.rtpg as m
    shapes = group_shapes(ctx, 3, 3 if ctx.thorough else 2)
    groups = []
    body = []
    for i, ports in enumerate(shapes):
        g = list(ctx.bytes('g%d' % i, 8 + 4 * ports))
        g[7] = ports
        groups.append(g)
        body += g
    if fmt == 0:
        data = be(len(body), 4) + body
    else:
        head = ctx.bytes('head', 4)
        data = be(4 + len(body), 4) + list(head) + body
    slack = list(ctx.bytes('slack', ctx.choice('slack', (0, 1, 8))))
    r, c = one_command(ctx, lambda: m.RTPGCommand(parameter_data_format=fmt), bytes(data + slack))
    ctx.check(r.ok, 'a complete response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    ctx.check(v.data_length == len(data) - 4, 'RETURN DATA LENGTH')
    if fmt == 1:
        ctx.check((v.format_type & 7) == bits(data[4], 6, 4), 'FORMAT TYPE')
    ctx.check(len(v.descriptor_list) == len(groups), 'one descriptor per target port group')
    for d, g in zip(v.descriptor_list, groups):
        for name, byte, hi, lo in TPG_BITS:
            ctx.check(getattr(d, name) == bits(g[byte], hi, lo), name)
        ctx.check(d.target_port_group == num(g, 2, 2), 'target port group id')
        ctx.check(d.status_code == g[5], 'status code')
        ctx.check(d.target_port_count == g[7], 'target port count')
        ctx.eq([p.relative_target_port_identifier for p in d.target_port_list],
               [num(g, 8 + 4 * j + 2, 2) for j in range((len(g) - 8) // 4)], 'relative target port ids, in order')
        ctx.observe('ports', [p.relative_target_port_identifier for p in d.target_port_list])


for _f in (0, 1):
    harness('rtpg', 'rtpg_response_%d' % _f, reach=('decoded',), fmt=_f, thorough=dict(seconds=400),
            bounds='0..3 groups of 0..2 ports (0..3 thorough), every other byte symbolic, 0/1/8 trailing bytes'
            )(rtpg_response)


@harness('rtpg', reach=('decoded',), quick=dict(seconds=200),
         bounds='one group with 127, 128 or 255 ports, port ids symbolic')
def rtpg_many_ports(ctx):
    import infi.asi.cdb.rtpg as m
    ports = ctx.choice('ports', (127, 128, 255))
    ids = [ctx.int('id%d' % i, 0, 65535) for i in range(4)]
    g = list(ctx.bytes('g', 8))
    g[7] = ports
    for j in range(ports):
        g += [0, 0] + be(ids[j & 3] if j >= ports - 4 else j, 2)
    data = be(len(g), 4) + g
    r, c = one_command(ctx, lambda: m.RTPGCommand(), bytes(data))
    ctx.check(r.ok, 'a complete response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    d = r.value.descriptor_list[0]
    ctx.check(len(r.value.descriptor_list) == 1, 'one descriptor')
    ctx.check(d.target_port_count == ports, 'target port count')
    ctx.eq([p.relative_target_port_identifier for p in d.target_port_list], [num(g, 8 + 4 * j + 2, 2) for j in range(ports)],
           'relative target port ids')


# ------------------------------------------------------------------------------------------------ RESERVE / RELEASE
@harness('rtpg', reach=('decoded',), quick=dict(seconds=200),
         bounds='17, 64 or 300 groups of one port each, first and last group and port symbolic, both formats')
def rtpg_many_groups(ctx):
    import infi.asi.cdb.rtpg as m
    fmt = ctx.choice('format', (0, 1))
    k = ctx.choice('groups', (17, 64, 300))
    groups = []
    for i in range(k):
        g = list(ctx.bytes('g%d' % i, 12)) if i in (0, k - 1) else [2, 0x4f] + be(i, 2) + [0, 0, 0, 1, 0, 0] + be(3 * i, 2)
        g[7] = 1
        groups.append(g)
    body = ([0x10, 7, 0, 0] if fmt else []) + [b for g in groups for b in g]
    r, c = one_command(ctx, lambda: m.RTPGCommand(parameter_data_format=fmt), bytes(be(len(body), 4) + body))
    ctx.check(r.ok, 'a complete response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    got = r.value.descriptor_list
    ctx.check(len(got) == k, 'one descriptor per target port group')
    ctx.eq([d.target_port_group for d in got], [num(g, 2, 2) for g in groups], 'target port group ids, in order')
    ctx.eq([d.status_code for d in got], [g[5] for g in groups], 'status codes')
    ctx.eq([p.relative_target_port_identifier for d in got for p in d.target_port_list], [num(g, 10, 2) for g in groups],
           'relative target port ids, in order')


@harness('reserve-release', reach=('sent',), bounds='the fixed CDBs; any 0..3 byte reply')
def reserve_release_6(ctx):
    import infi.asi.cdb.reserve as m1
    import infi.asi.cdb.release as m2
    which = ctx.choice('which', ('reserve', 'release'))
    data = ctx.bytes('data', ctx.pick('n', 0, 3))
    cls = m1.Reserve6Command if which == 'reserve' else m2.Release6Command
    r, c = one_command(ctx, cls, data, 'write')
    ctx.reach('sent')
    ctx.eq(c.command, [0x16 if which == 'reserve' else 0x17, 0, 0, 0, 0, 0], 'CDB')
    ctx.eq(c.data, b'', 'no parameter data')
    ctx.eq(r.value, data, 'the reply is returned')


@harness('reserve-release', reach=('short', 'long', 'none', 'refused'),
         bounds='third-party device id from -2^66 to 2^66')
def reserve_release_10(ctx):
    import infi.asi.cdb.reserve as m1
    import infi.asi.cdb.release as m2
    which = ctx.choice('which', ('reserve', 'release'))
    cls = m1.Reserve10Command if which == 'reserve' else m2.Release10Command
    op = 0x56 if which == 'reserve' else 0x57
    dev = ctx.int('device', -2 ** 66, 2 ** 66)
    r, c = one_command(ctx, lambda: cls(third_party_device_id=dev), b'', 'write')
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(ctx.And(dev >= 0, dev < 2 ** 64)), 'a third-party id that fits is accepted')
        return
    ctx.check(dev < 2 ** 64, 'a third-party id that does not fit is refused')
    cdb = c.command
    data = list(c.data)
    if ctx.is_true(dev <= 0):
        ctx.reach('none')
        ctx.eq(cdb, [op, 0, 0, 0, 0, 0, 0, 0, 0, 0], 'CDB of a plain reservation')
        ctx.eq(data, [], 'no parameter data')
    elif ctx.is_true(dev < 255):
        ctx.reach('short')
        ctx.eq(cdb, [op, 0x10, 0, dev, 0, 0, 0, 0, 0, 0], 'CDB with a one-byte third-party id')
        ctx.eq(data, [], 'no parameter data')
    else:
        # 255 may legally be sent either way; larger ids need the long form
        ctx.reach('long')
        if not data:
            ctx.check(dev == 255, 'an id over one byte is sent as parameter data')
            ctx.eq(cdb, [op, 0x10, 0, dev & 0xff, 0, 0, 0, 0, 0, 0], 'CDB')
            return
        ctx.eq(cdb, [op, 0x12, 0, 0, 0, 0, 0, 0, 8, 0], 'CDB of the long form')
        ctx.eq(data, be(dev, 8), 'third-party id as parameter data')
    ctx.observe('cdb', cdb)
