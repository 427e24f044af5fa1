"""PERSISTENT RESERVE IN / OUT."""
from .api import harness, be, num, bits, RecordingExecuter, run_command
from .h_misc import one_command


# ------------------------------------------------------------------------------------------------------------- OUT
@harness('persistent-reserve-out', reach=('sent', 'refused'), quick=dict(seconds=200),
         bounds='service action 0..31, type 0..31, keys from -2^65 to 2^66')
def pr_out(ctx):
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    sa = ctx.int('service_action', 0, 31)
    ctx.assume(sa != 7)
    key = ctx.int('key', -2 ** 65, 2 ** 66)
    sa_key = ctx.int('service_action_key', -2 ** 65, 2 ** 66)
    pr_type = ctx.int('type', 0, 31)
    reply = ctx.bytes('reply', 2)
    r, c = one_command(ctx, lambda: PersistentReserveOutCommand(
        service_action=sa, reservation_key=key, service_action_reservation_key=sa_key, pr_type=pr_type), reply, 'write')
    fits = ctx.And(sa <= 8, pr_type < 16, key >= 0, key < 2 ** 64, sa_key >= 0, sa_key < 2 ** 64)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(c.command, [0x5f, sa, pr_type, 0, 0, 0, 0, 0, 24, 0], 'PERSISTENT RESERVE OUT CDB')
    ctx.eq(c.data, be(key, 8) + be(sa_key, 8) + [0] * 8, 'parameter list: both keys')
    ctx.eq(r.value, reply, 'the reply is returned')
    ctx.observe('cdb', c.command)
    ctx.observe('data', c.data)


@harness('persistent-reserve-out', reach=('sent',), quick=dict(seconds=200), bounds='every combination of the flags; keys in range')
def pr_out_flags(ctx):
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    sa = ctx.choice('service_action', (0, 1, 2, 3, 4, 5, 6, 8))
    key = ctx.int('key', 0, 2 ** 64 - 1)
    aptpl, atp, sip = ctx.int('aptpl', 0, 1), ctx.int('all_tg_pt', 0, 1), ctx.int('spec_i_pt', 0, 1)
    r, c = one_command(ctx, lambda: PersistentReserveOutCommand(
        service_action=sa, reservation_key=key, activate_persist_through_power_loss=aptpl, all_target_ports=atp,
        specify_initiator_ports=sip), b'', 'write')
    ctx.check(c is not None, 'accepted')
    if c is None:
        return
    ctx.reach('sent')
    ctx.eq(c.command, [0x5f, sa, 1, 0, 0, 0, 0, 0, 24, 0], 'PERSISTENT RESERVE OUT CDB (default type)')
    ctx.eq(c.data, be(key, 8) + [0] * 12 + [aptpl | (atp << 2) | (sip << 3), 0, 0, 0], 'APTPL, ALL_TG_PT, SPEC_I_PT')


@harness('persistent-reserve-out', reach=('sent',), quick=dict(seconds=200),
         bounds='every key, port, flag; transport ids of 8 and 24 bytes with arbitrary content')
def pr_out_register_and_move(ctx):
    from infi.asi.cdb.persist.output import PersistentReserveOutCommand
    from infi.asi.cdb.persist.transport import TransportId
    n = ctx.choice('n', (8, 24))
    raw = list(ctx.bytes('transport_id', n - 1))
    key = ctx.int('key', 0, 2 ** 64 - 1)
    sa_key = ctx.int('service_action_key', 0, 2 ** 64 - 1)
    port = ctx.int('port', 0, 65535)
    aptpl, unreg = ctx.int('aptpl', 0, 1), ctx.int('unreg', 0, 1)
    proto = ctx.choice('protocol', (0, 1, 5, 6))
    fmt = ctx.choice('format', (0, 1))
    r, c = one_command(ctx, lambda: PersistentReserveOutCommand(
        service_action=7, reservation_key=key, service_action_reservation_key=sa_key,
        transport_id=TransportId(protocol_identifier=proto, format_code=fmt, specific_data=bytearray(raw)),
        relative_target_port_identifier=port, activate_persist_through_power_loss=aptpl, unregister=unreg),
        b'', 'write')
    ctx.check(c is not None, 'accepted')
    if c is None:
        return
    ctx.reach('sent')
    ctx.eq(c.command, [0x5f, 7, 1, 0, 0] + be(24 + n, 4) + [0], 'PERSISTENT RESERVE OUT CDB')
    ctx.eq(c.data, be(key, 8) + be(sa_key, 8) + [0, aptpl | (unreg << 1)] + be(port, 2) + be(n, 4) +
           [proto | (fmt << 6)] + raw, 'REGISTER AND MOVE parameter list')


# -------------------------------------------------------------------------------------------------------------- IN
@harness('persistent-reserve-in', reach=('sent', 'refused'), bounds='service action 0..63, allocation length from -2^18 to 2^18')
def pr_in_cdb(ctx):
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    sa = ctx.int('service_action', 0, 63)
    alloc = ctx.int('alloc', -2 ** 18, 2 ** 18)
    r, c = one_command(ctx, lambda: PersistentReserveInCommand(service_action=sa, allocation_length=alloc), bytes(8))
    fits = ctx.And(sa < 32, alloc >= 8, alloc < 65536)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Or(ctx.Not(fits), sa > 3), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(c.command, [0x5e, sa, 0, 0, 0, 0, 0] + be(alloc, 2) + [0], 'PERSISTENT RESERVE IN CDB')
    ctx.check(c.max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')
    ctx.check(ctx.Implies(r.ok, sa <= 3), 'a service action with no known layout is not decoded as another')


def pr_in(ctx, sa, data):
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    return one_command(ctx, lambda: PersistentReserveInCommand(service_action=sa), bytes(data))[0]


@harness('persistent-reserve-in', reach=('decoded', 'truncated', 'short'),
         bounds='0..4 keys (0..12 thorough) present, ADDITIONAL LENGTH any multiple of 8, reply cut at any byte')
def pr_in_read_keys(ctx):
    n = ctx.pick('n', 0, 8 + 8 * (12 if ctx.thorough else 4))
    data = list(ctx.bytes('data', n))
    if n >= 8:
        ctx.assume((data[7] & 7) == 0)
    r = pr_in(ctx, 0, data)
    if n < 8:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response without the header is an error')
        return
    ctx.check(r.ok, 'a response with the header is decoded')
    if not r.ok:
        return
    length = num(data, 4, 4)
    v = r.value
    ctx.check(v.pr_generation == num(data, 0, 4), 'generation')
    ctx.check(v.additional_length == length, 'additional length')
    ctx.check(v.required_allocation_length() == length + 8, 'the allocation length that would hold all the keys')
    if ctx.is_true(length > n - 8):
        ctx.reach('truncated')
        ctx.check(v.key_list is None, 'a truncated list is not passed off as the whole list')
        return
    ctx.reach('decoded')
    k = len(v.key_list)
    ctx.check(k * 8 == length, 'every registered key is listed')
    ctx.eq(list(v.key_list), [num(data, 8 + 8 * i, 8) for i in range(k)], 'keys, in order')
    ctx.observe('keys', list(v.key_list))


@harness('persistent-reserve-in', reach=('decoded', 'truncated'), quick=dict(seconds=200),
         bounds='31, 32, 64, 65, 255, 256 and 1000 registered keys, all of them or all but one received, the ends symbolic')
def pr_in_many_keys(ctx):
    from infi.asi.cdb.persist.input import PersistentReserveInCommand
    k = ctx.choice('keys', (31, 32, 64, 65, 255, 256, 1000))
    keys = [0x0102030405060000 + 5 * i for i in range(k)]
    for i in (0, k // 2, k - 1):
        keys[i] = ctx.int('key%d' % i, 0, 2 ** 64 - 1)
    whole = ctx.choice('whole', (True, False))
    data = [0, 0, 0, 7] + be(8 * k, 4) + [b for key in keys for b in be(key, 8)]
    data = data[:8 + 8 * (k if whole else k - 1)]
    r, c = one_command(ctx, lambda: PersistentReserveInCommand(service_action=0, allocation_length=len(data)), bytes(data))
    ctx.check(r.ok, 'a response with the header is decoded')
    if not r.ok:
        return
    ctx.check(r.value.additional_length == 8 * k, 'additional length')
    ctx.check(r.value.required_allocation_length() == 8 * k + 8, 'the allocation length that would hold all the keys')
    if not whole:
        ctx.reach('truncated')
        ctx.check(r.value.key_list is None, 'a truncated list is not passed off as the whole list')
        return
    ctx.reach('decoded')
    ctx.check(len(r.value.key_list) == k, 'every registered key is listed')
    ctx.eq(list(r.value.key_list), keys, 'keys, in order')


@harness('persistent-reserve-in', reach=('decoded', 'none', 'short'), bounds='every response of 0..26 bytes, fully symbolic')
def pr_in_read_reservation(ctx):
    n = ctx.pick('n', 0, 26)
    data = list(ctx.bytes('data', n))
    r = pr_in(ctx, 1, data)
    if n < 8:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response without the header is an error')
        return
    ctx.check(r.ok, 'a response with the header is decoded')
    if not r.ok:
        return
    v = r.value
    ctx.check(v.pr_generation == num(data, 0, 4), 'generation')
    ctx.check(v.additional_length == num(data, 4, 4), 'additional length')
    ctx.check(v.required_allocation_length() == num(data, 4, 4) + 8, 'the allocation length that would hold it all')
    if n >= 16:
        ctx.check(v.reservation_key == num(data, 8, 8), 'reservation key')
    else:
        ctx.reach('none')
        ctx.check(v.reservation_key is None, 'an absent key is absent')
    if n >= 22:
        ctx.reach('decoded')
        ctx.check(v.pr_type == bits(data[21], 3, 0), 'type')
        ctx.check(v.scope == bits(data[21], 7, 4), 'scope')
        ctx.observe('type', v.pr_type)
    else:
        ctx.check(v.pr_type is None and v.scope is None, 'absent type and scope are absent')


CAPABILITIES = (('persist_through_power_lost_capable', 2, 0, 0), ('all_target_ports_capable', 2, 2, 2),
                ('specify_initiator_ports_capable', 2, 3, 3), ('compatible_reservation_handling', 2, 4, 4),
                ('replace_lost_reservation_capable', 2, 7, 7), ('persist_through_power_lost_activates', 3, 0, 0),
                ('allow_commands', 3, 6, 4), ('type_mask_valid', 3, 7, 7), ('write_exclusive', 4, 1, 1),
                ('exclusive_access', 4, 3, 3), ('write_exclusive_registrants_only', 4, 5, 5),
                ('exclusive_access_registrants_only', 4, 6, 6), ('write_exclusive_all_registrants', 4, 7, 7),
                ('exclusive_access_all_registrants', 5, 0, 0))


@harness('persistent-reserve-in', reach=('decoded',), bounds='every response of 8 and 9 bytes')
def pr_in_capabilities(ctx):
    data = list(ctx.bytes('data', ctx.choice('n', (8, 9))))
    r = pr_in(ctx, 2, data)
    ctx.check(r.ok, 'a full response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    ctx.check(v.length == num(data, 0, 2), 'length')
    for name, byte, hi, lo in CAPABILITIES:
        ctx.check(getattr(v, name) == bits(data[byte], hi, lo), name)
        ctx.observe(name, getattr(v, name))
    ctx.check(v.required_allocation_length() == 8, 'eight bytes hold the capabilities')


@harness('persistent-reserve-in', reach=('decoded',), quick=dict(seconds=200), thorough=dict(seconds=600),
         bounds='0..3 descriptors with transport ids of 8, 24 or 28 bytes, all other bytes symbolic, 0 or 4 bytes of slack')
def pr_in_full_status(ctx):
    k = ctx.pick('k', 0, 3)
    ds = []
    body = []
    for i in range(k):
        n = ctx.choice('transport_id_size%d' % i, (8, 24, 28) if i == 0 or ctx.thorough else (8, 24))
        d = list(ctx.bytes('d%d' % i, 24 + n))
        d[20:24] = be(n, 4)
        ds.append(d)
        body += d
    gen = list(ctx.bytes('gen', 4))
    data = gen + be(len(body), 4) + body + list(ctx.bytes('slack', ctx.choice('slack', (0, 4))))
    r = pr_in(ctx, 3, data)
    ctx.check(r.ok, 'a full response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    ctx.check(v.pr_generation == num(gen), 'generation')
    ctx.check(v.additional_length == len(body), 'additional length')
    q = ctx.outcome(v.required_allocation_length)
    ctx.check(q.ok and q.value == 8 + len(body), 'the allocation length that would hold it all')
    got = v.full_status_descriptors or []
    ctx.check(len(got) == k, 'one descriptor per registration')
    for g, d in zip(got, ds):
        for name, want in (('reservation_key', num(d, 0, 8)), ('reservation_holder', bits(d[12], 0, 0)),
                           ('all_target_ports', bits(d[12], 1, 1)), ('pr_type', bits(d[13], 3, 0)),
                           ('scope', bits(d[13], 7, 4)), ('relative_target_port_identifier', num(d, 18, 2)),
                           ('additional_length', len(d) - 24)):
            ctx.check(getattr(g, name) == want, name)
        t = g.transport_id
        ctx.check(t.protocol_identifier == bits(d[24], 3, 0), 'protocol of the transport id')
        ctx.check(t.format_code == bits(d[24], 7, 6), 'format of the transport id')
        ctx.eq(t.specific_data, d[25:], 'transport id bytes')
        ctx.observe('tid', t.specific_data)


@harness('persistent-reserve-in', reach=('cut',), quick=dict(seconds=200),
         bounds='two descriptors with 24-byte transport ids, reply cut at every byte')
def pr_in_full_status_cut(ctx):
    """a registration that was not received in full is not reported with made-up content"""
    ds = []
    for i in range(2):
        d = list(ctx.bytes('d%d' % i, 48))
        d[20:24] = be(24, 4)
        ds.append(d)
    data = [0, 0, 0, 9] + be(96, 4) + ds[0] + ds[1]
    cut = ctx.pick('cut', 8, 103)
    r = pr_in(ctx, 3, data[:cut])
    ctx.reach('cut')
    if not r.ok:
        return
    ctx.check(r.value.additional_length == 96, 'the length tells that more is available')
    got = r.value.full_status_descriptors or []
    whole = (cut - 8) // 48
    ctx.check(len(got) <= whole, 'only registrations received in full are reported')
    for g, d in zip(got, ds):
        ctx.check(g.reservation_key == num(d, 0, 8), 'key')
        ctx.check(g.reservation_holder == bits(d[12], 0, 0), 'holder')


@harness('persistent-reserve-in', reach=('decoded',), quick=dict(seconds=200),
         bounds='11, 32, 64 and 200 descriptors with 24-byte transport ids, first, middle and last symbolic; one with a '
                'transport id of 228 or 1000 bytes')
def pr_in_full_status_many(ctx):
    k = ctx.choice('k', (11, 32, 64, 200, 1, -1))
    size = {1: 228, -1: 1000}.get(k, 24)
    k = abs(k)
    ds = []
    for i in range(k):
        if i in (0, k // 2, k - 1):
            d = list(ctx.bytes('d%d' % i, 48)) + [(3 * j) & 0xff for j in range(size - 24)]
        else:
            d = be(0x1122334455660000 + i, 8) + [0, 0, 0, 0, i & 3, 0x01, 0, 0, 0, 0] + be(i, 2) + [0] * 4 + [6] + [i & 0xff] * 23
        d[20:24] = be(size, 4)
        ds.append(d)
    body = [b for d in ds for b in d]
    r = pr_in(ctx, 3, [0, 0, 0, 9] + be(len(body), 4) + body)
    ctx.check(r.ok, 'a full response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    got = r.value.full_status_descriptors or []
    ctx.check(len(got) == k, 'one descriptor per registration')
    ctx.eq([g.reservation_key for g in got], [num(d, 0, 8) for d in ds], 'keys, in order')
    ctx.eq([g.reservation_holder for g in got], [bits(d[12], 0, 0) for d in ds], 'holders')
    ctx.eq([g.relative_target_port_identifier for g in got], [num(d, 18, 2) for d in ds], 'ports')
    for i in {0, k // 2, k - 1}:
        ctx.eq(got[i].transport_id.specific_data, ds[i][25:], 'transport id bytes')
