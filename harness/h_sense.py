"""Sense data: fixed and descriptor formats, additional sense codes, and the error a check condition becomes."""
from .api import harness, be, num, bits
from .asc_table import TABLE

KEYS = ('NO_SENSE', 'RECOVERED_ERROR', 'NOT_READY', 'MEDIUM_ERROR', 'HARDWARE_ERROR', 'ILLEGAL_REQUEST',
        'UNIT_ATTENTION', 'DATA_PROTECT', 'BLANK_CHECK', 'VENDOR_SPECIFIC', 'COPY_ABORTED', 'ABORTED_COMMAND',
        'RESERVED', 'VOLUME_OVERFLOW', 'MISCOMPARE', 'COMPLETED')


ASCS = ((0, 0), (0x29, 0), (0x40, 0x80), (0x3f, 0x0e), (0x80, 1))


def decode(ctx, data):
    from infi.asi.sense import get_sense_object_from_buffer
    r = ctx.outcome(lambda: get_sense_object_from_buffer(data))
    ctx.check(r.ok and r.value is not None, 'well-formed sense data is decoded')
    return r.value if r.ok else None


def check_condition(ctx, data):
    """what a caller gets for a CHECK CONDITION with this sense data; the additional sense code, whose name is part
    of the text of the error, is one of a few"""
    import infi.asi as m
    from infi.asi.errors import AsiCheckConditionError, AsiSCSIError
    exe = m.CommandExecuterBase()
    if len(data) > 3:
        desc = ctx.And((data[0] & 0x7f) >= 0x72, (data[0] & 0x7f) <= 0x73)
        ctx.assume(ctx.Implies(desc, ctx.Or(*[ctx.And(data[2] == a, data[3] == q) for a, q in ASCS])))
    if len(data) > 13:
        fix = ctx.And((data[0] & 0x7f) >= 0x70, (data[0] & 0x7f) <= 0x71)
        ctx.assume(ctx.Implies(fix, ctx.Or(*[ctx.And(data[12] == a, data[13] == q) for a, q in ASCS])))
    r = ctx.outcome(lambda: exe._check_condition(data))
    ctx.check(r.ok, 'sense data of any content becomes an error object')
    if not r.ok:
        return None
    e = r.value
    ctx.check(isinstance(e, AsiCheckConditionError) and isinstance(e, AsiSCSIError), 'a check condition error')
    ctx.eq(e.sense_buffer, data, 'the raw sense bytes are available')
    return e


def check_key(ctx, name, value):
    for i, n in enumerate(KEYS):
        if name == n:
            ctx.check(value == i, 'sense key')
            return
    ctx.fail('the sense key is one of the sixteen names')


@harness('sense-decode', reach=('decoded',), quick=dict(seconds=200),
         bounds='response codes 70h and 71h with or without VALID, 255 byte sense buffers (and exactly 18), every byte '
                'that is decoded symbolic')
def sense_fixed(ctx):
    n = ctx.choice('n', (18, 255))
    head = list(ctx.bytes('head', 18))
    ctx.assume(ctx.Or((head[0] & 0x7f) == 0x70, (head[0] & 0x7f) == 0x71))
    data = bytes(head + [0] * (n - 18))
    s = decode(ctx, data)
    if s is None:
        return
    ctx.reach('decoded')
    ctx.check(s.response_code.code == bits(head[0], 6, 0), 'response code')
    ctx.check(s.response_code.valid == bits(head[0], 7, 7), 'VALID')
    check_key(ctx, s.sense_key, bits(head[2], 3, 0))
    ctx.check(s.ili == bits(head[2], 5, 5), 'ILI')
    ctx.check(s.eom == bits(head[2], 6, 6), 'EOM')
    ctx.check(s.filemark == bits(head[2], 7, 7), 'FILEMARK')
    ctx.check(s.information == num(head, 3, 4), 'INFORMATION')
    ctx.check(s.additional_sense_length == head[7], 'ADDITIONAL SENSE LENGTH')
    ctx.check(s.command_specific_information == num(head, 8, 4), 'COMMAND-SPECIFIC INFORMATION')
    ctx.check(s.additional_sense_code.code == head[12], 'ASC')
    ctx.check(s.additional_sense_code.qualifier == head[13], 'ASCQ')
    ctx.check(s.field_replaceable_unit_code == head[14], 'FIELD REPLACEABLE UNIT CODE')
    ctx.check(s.sksv == bits(head[15], 7, 7), 'SKSV')
    ctx.check(s.sense_key_specific_high == bits(head[15], 6, 0), 'sense key specific, first byte')
    ctx.check(s.sense_key_specific_low == head[16], 'sense key specific, second byte')
    ctx.observe('key', s.sense_key)


@harness('sense-decode', reach=('decoded', 'padded'), quick=dict(seconds=200), thorough=dict(seconds=500),
         bounds='response codes 72h and 73h, 0..2 (3 thorough) descriptors of any type with 0..3 bytes or the '
                'information descriptor, zero padding to 255 bytes or none')
def sense_descriptor(ctx):
    head = list(ctx.bytes('head', 8))
    ctx.assume(ctx.Or((head[0] & 0x7f) == 0x72, (head[0] & 0x7f) == 0x73))
    descs = []
    for i in range(ctx.pick('descriptors', 0, 3 if ctx.thorough else 2)):
        if ctx.choice('kind%d' % i, (0, 1)):
            descs.append([0x00, 0x0a] + list(ctx.bytes('info%d' % i, 10)))
        else:
            k = ctx.pick('len%d' % i, 0, 3)
            d = [ctx.int('type%d' % i, 1, 255), k] + list(ctx.bytes('d%d' % i, k))
            descs.append(d)
    body = [b for d in descs for b in d]
    head[7] = len(body)
    data = head + body
    if ctx.choice('pad', (0, 1)):
        ctx.reach('padded')
        data = data + [0] * (255 - len(data))
    s = decode(ctx, bytes(data))
    if s is None:
        return
    ctx.reach('decoded')
    ctx.check(s.response_code.code == bits(head[0], 6, 0), 'response code')
    check_key(ctx, s.sense_key, bits(head[1], 3, 0))
    ctx.check(s.additional_sense_code.code == head[2], 'ASC')
    ctx.check(s.additional_sense_code.qualifier == head[3], 'ASCQ')
    ctx.check(len(s.descriptors) == len(descs), 'every descriptor is decoded')
    for d, raw in zip(s.descriptors, descs):
        ctx.check(d.descriptor_type == raw[0], 'descriptor type')
        if hasattr(d, 'data'):
            ctx.eq(d.data, raw[2:], 'descriptor data')
        else:
            ctx.check(len(raw) == 12, 'only the information descriptor has its own layout')
            ctx.check(d.valid == bits(raw[2], 7, 7), 'VALID of the information descriptor')
            ctx.eq(d.information, raw[4:12], 'INFORMATION')


@harness('sense-decode', reach=('decoded',), quick=dict(seconds=200),
         bounds='8, 20 information descriptors, 61 descriptors of two data bytes, 122 empty ones, one of 242 bytes; first and '
                'last symbolic; zero padding to 255 bytes')
def sense_many_descriptors(ctx):
    k, size = ctx.choice('shape', ((8, 10), (20, 10), (61, 2), (122, 0), (1, 242)))
    head = [0x72, 0x05, 0x24, 0x00, 0, 0, 0, 0]
    descs = []
    for i in range(k):
        data = [(i + j) & 0xff for j in range(size)]
        if i in (0, k - 1):
            fresh = list(ctx.bytes('d%d' % i, min(size, 10)))
            data[:len(fresh)] = fresh
        descs.append([0 if size == 10 else 3 + i % 5, size] + data)
    body = [b for d in descs for b in d]
    head[7] = len(body)
    data = head + body
    s = decode(ctx, bytes(data + [0] * (255 - len(data))))
    if s is None:
        return
    ctx.reach('decoded')
    ctx.check(s.additional_sense_code.code == 0x24, 'ASC')
    ctx.check(len(s.descriptors) == k, 'every descriptor is decoded')
    for d, raw in zip(s.descriptors, descs):
        ctx.check(d.descriptor_type == raw[0], 'descriptor type')
        if hasattr(d, 'data'):
            ctx.eq(d.data, raw[2:], 'descriptor data')
        else:
            ctx.check(size == 10, 'only the information descriptor has its own layout')
            ctx.eq(d.information, raw[4:12], 'INFORMATION')


@harness('sense-decode', reach=('raw', 'decoded'), quick=dict(seconds=200), thorough=dict(seconds=500),
         bounds='sense buffers of 0..20 bytes (0..40 thorough) with every byte symbolic, so truncated and nonsensical '
                'sense data included; descriptor lists of at most 2 bytes or one that is longer than the buffer')
def sense_any(ctx):
    """whatever the device left in the sense buffer, the caller gets a check condition with the raw bytes"""
    n = ctx.choice('n', (0, 1, 2, 4, 7, 8, 10, 12, 16, 17, 18, 20) if not ctx.thorough else tuple(range(41)))
    data = list(ctx.bytes('data', n))
    fmt = None
    if n:
        code = data[0] & 0x7f
        if ctx.is_true(ctx.Or(code == 0x72, code == 0x73)) and n > 8:
            # the number of descriptors explodes otherwise
            ctx.assume(ctx.Or(data[7] <= 2, data[7] == 255))
            fmt = 'descriptor'
            data = data[:10] + [0] * max(n - 10, 0)
            data = data[:n]
    # every sense key is decoded in the harnesses above
    for i in (1, 2):
        if n > i:
            ctx.assume(ctx.Or(bits(data[i], 3, 0) == 0, bits(data[i], 3, 0) == 5))
    if n > 2 and not ctx.thorough:
        ctx.assume(ctx.Or((data[2] & 0xf0) == 0, (data[2] & 0xf0) == 0x20))
    e = check_condition(ctx, bytes(data))
    if e is None:
        return
    ctx.reach('raw' if e.sense_obj is None else 'decoded')
    if n:
        known = ctx.And(data[0] & 0x7f >= 0x70, data[0] & 0x7f <= 0x73)
        if e.sense_obj is not None:
            ctx.check(known, 'other response codes are not decoded as sense data')
        if n >= 18:
            ctx.check(ctx.Implies((data[0] & 0x7e) == 0x70, e.sense_obj is not None), 'a fixed format buffer is decoded')


# ------------------------------------------------------------------------------------------- additional sense codes
def hexed(i):
    return ('%2X' % i, '%02X' % i)


def named():
    """every name -> the codes that may have it"""
    out = {}
    for (c, q), text in TABLE.items():
        out.setdefault(text, []).append(('table', c, q))
    for what, c, lo, fmt in (('component', 0x40, 0x80, 'DIAGNOSTIC FAILURE ON COMPONENT %s'),
                             ('tag', 0x4d, 0, 'TAGGED OVERLAPPED COMMANDS (%s = TASK TAG)'),
                             ('algorithm', 0x70, 0, 'DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %s')):
        for q in range(lo, 256):
            for h in hexed(q):
                out.setdefault(fmt % h, []).append((what, c, q))
    return out


NAMED = named()


def asc_name_of_any(ctx):
    from infi.asi.sense.asc import AdditionalSenseCode
    code = ctx.int('code', 0, 255)
    qual = ctx.int('qualifier', 0, 255)
    a = AdditionalSenseCode.create_from_string(bytes([code, qual]))
    ctx.check(a.code == code, 'code')
    ctx.check(a.qualifier == qual, 'qualifier')
    name = a.code_name
    if name.startswith('Unknown code'):
        ctx.reach('unknown')
        known = ctx.Or(ctx.And(code == 0x40, qual >= 0x80), code == 0x4d, code == 0x70,
                       *[ctx.And(code == c, qual == q) for c, q in TABLE])
        ctx.check(ctx.Not(known), 'a code of the T10 list has its name')
        return
    pairs = NAMED.get(name, ())
    for what, c, q in pairs:
        ctx.reach(what)
    ctx.check(ctx.Or(*[ctx.And(code == c, qual == q) for what, c, q in pairs]) if pairs else False,
              'the name is the one of this code and qualifier')


@harness('sense-asc', reach=('table', 'component', 'tag', 'algorithm', 'unknown'), quick=dict(seconds=300, paths=60000),
         thorough=dict(seconds=600, paths=60000), bounds='all 65536 (ASC, ASCQ) pairs')
def asc_names(ctx):
    asc_name_of_any(ctx)


# the code decoded first must not show in the second one
for _c, _q in ((0x04, 0x00), (0x39, 0x00), (0x4d, 0xff)):
    @harness('sense-asc', 'asc_names_after[%02x_%02x]' % (_c, _q), reach=('table', 'component', 'tag', 'algorithm', 'unknown'),
             quick=dict(seconds=300, paths=60000), thorough=dict(seconds=600, paths=60000), code=_c, qualifier=_q,
             bounds='all 65536 (ASC, ASCQ) pairs, decoded after this one')
    def asc_names_after(ctx, code, qualifier):
        from infi.asi.sense.asc import AdditionalSenseCode
        first = AdditionalSenseCode.create_from_string(bytes([code, qualifier]))
        name = first.code_name
        ctx.check((TABLE.get((code, qualifier)) or name) == name, 'the name is the one of this code and qualifier')
        asc_name_of_any(ctx)
        ctx.check(first.code_name == name, 'the name stays that of this code and qualifier')

