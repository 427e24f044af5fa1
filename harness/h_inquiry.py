"""INQUIRY: command descriptor block, standard data, vital product data pages, designators."""
from .api import harness, be, num, bits, RecordingExecuter, run_command
from .h_misc import one_command


def pad(values, n, fill=0):
    return list(values) + [fill] * (n - len(values))


# --------------------------------------------------------------------------------------------------------- the CDB
@harness('inquiry-cdb', reach=('sent', 'refused'),
         bounds='page code, EVPD and allocation length from -4x to +4x of their fields')
def standard_inquiry_cdb(ctx):
    from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
    page = ctx.int('page', -1024, 1024)
    evpd = ctx.int('evpd', 0, 1)
    alloc = ctx.int('alloc', -2 ** 18, 2 ** 18)
    data = bytes([0] * 36)
    r, c = one_command(ctx, lambda: StandardInquiryCommand(page_code=page, evpd=evpd, allocation_length=alloc), data)
    fits = ctx.And(page >= 0, page < 256, alloc >= 0, alloc < 65536)
    if c is None:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(c.command, [0x12, evpd, page] + be(alloc, 2) + [0], 'INQUIRY CDB')
    ctx.check(c.max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')
    ctx.observe('cdb', c.command)


KNOWN_PAGES = {0x00: ('SupportedVPDPagesCommand', 'SupportedVPDPagesBuffer'),
               0x80: ('UnitSerialNumberVPDPageCommand', 'UnitSerialNumberVPDPageBuffer'),
               0x83: ('DeviceIdentificationVPDPageCommand', 'DeviceIdentificationVPDPageBuffer'),
               0x89: ('AtaInformationVPDPageCommand', 'AtaInformationVPDPageBuffer'),
               0xb0: ('BlockLimitsPageCommand', 'BlockLimitsVPDPageBuffer'),
               0xb2: ('LogicalBlockProvisioningPageCommand', 'LogicalBlockProvisioningVPDPageBuffer'),
               0xc0: ('VeritasVPDPageCommand', 'VeritasVPDPageBuffer')}


@harness('inquiry-cdb', reach=('known', 'unknown'), bounds='every page code 0..255')
def vpd_dispatch(ctx):
    import infi.asi.cdb.inquiry.vpd_pages as m
    from infi.asi import SCSIReadCommand
    page = ctx.int('page', 0, 255)
    cls = m.get_vpd_page(page)
    buf = m.get_vpd_page_data(page)
    cmd = cls()
    known = False
    for code in KNOWN_PAGES:
        if ctx.is_true(page == code):
            known = True
            names = KNOWN_PAGES[code]
            ctx.check(cls is getattr(m, names[0]), 'the command of a known page')
            ctx.check(buf is getattr(m, names[1]), 'the response layout of a known page')
            break
    ctx.reach('known' if known else 'unknown')
    if not known:
        ctx.check(buf is m.UnknownVPDPageBuffer, 'other pages are decoded as raw bytes')
    ctx.check(cmd.result_class is buf, 'the command decodes what it asked for')

    class Stop(Exception):
        pass
    exe = RecordingExecuter(Stop())
    r = ctx.outcome(lambda: run_command(cmd, exe))
    ctx.check(r.raised(Stop), 'the error of the executer reaches the caller')
    ctx.check(len(exe.commands) == 1, 'one command is issued')
    c = exe.commands[0]
    alloc = c.max_response_length
    ctx.check(isinstance(c, SCSIReadCommand), 'a read')
    ctx.eq(c.command, [0x12, 1, page] + be(alloc, 2) + [0], 'INQUIRY CDB: EVPD, page code and allocation length')
    need = {0x89: 572, 0x00: 252, 0x80: 252, 0x83: 252, 0xb0: 64, 0xb2: 252, 0xc0: 6}
    for code in need:
        ctx.check(ctx.Implies(page == code, alloc >= need[code]), 'the buffer holds the page')
    ctx.check(alloc >= 252, 'the buffer holds a page')


# --------------------------------------------------------------------------------------------------- standard INQUIRY
STD_BITS = (('cong', 1, 6, 6), ('rmb', 1, 7, 7), ('version', 2, 7, 0), ('response_data_format', 3, 3, 0),
            ('hisup', 3, 4, 4), ('normaca', 3, 5, 5), ('additional_length', 4, 7, 0), ('protect', 5, 0, 0),
            ('threepc', 5, 3, 3), ('tpgs', 5, 5, 4), ('acc', 5, 6, 6), ('sccs', 5, 7, 7), ('addr16', 6, 0, 0),
            ('multi_p', 6, 4, 4), ('enc_serv', 6, 6, 6), ('cmd_que', 7, 1, 1), ('sync', 7, 4, 4), ('wbus16', 7, 5, 5))
VENDOR, PRODUCT, REV = b'VENDOR01', b'PRODUCT_NAME_123', b'r1.2'


def inquire(ctx, data, alloc=255):
    from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
    return one_command(ctx, lambda: StandardInquiryCommand(allocation_length=alloc), bytes(data))[0]


def check_peripheral(ctx, v, byte):
    ctx.check(v.peripheral_device.type == bits(byte, 4, 0), 'peripheral device type')
    ctx.check(v.peripheral_device.qualifier == bits(byte, 7, 5), 'peripheral qualifier')


@harness('standard-inquiry', reach=('decoded',), quick=dict(seconds=200), thorough=dict(seconds=600),
         bounds='header bytes 0..7 fully symbolic; responses of 36, 37, 74 and 96 bytes')
def standard_inquiry_bits(ctx):
    head = list(ctx.bytes('head', 8))
    n = ctx.choice('n', (36, 37, 74, 96))
    data = head + list(VENDOR + PRODUCT + REV) + [0x40 + i % 64 for i in range(n - 36)]
    # ADDITIONAL LENGTH decides how much of the rest is decoded: representatives here, all values in the next harness
    pick = ctx.choice('additional', (0, 31, 32, 33, 69, 91, 255))
    ctx.assume(head[4] == pick)
    r = inquire(ctx, data)
    ctx.check(r.ok, 'a response of at least 36 bytes is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, head[0])
    for name, byte, hi, lo in STD_BITS:
        ctx.check(getattr(v, name) == bits(head[byte], hi, lo), name)
    ctx.eq(v.t10_vendor_identification, 'VENDOR01', 'vendor')
    ctx.eq(v.product_identification, 'PRODUCT_NAME_123', 'product')
    ctx.eq(v.product_revision_level, 'r1.2', 'revision')
    for name, byte, hi, lo in STD_BITS:
        ctx.observe(name, getattr(v, name))


def strip_right(ctx, values):
    """text of a padded field: trailing NULs, then trailing spaces, are not part of it (forks on where they start)"""
    v = list(values)
    while v and ctx.is_true(v[-1] == 0):
        v.pop()
    while v and ctx.is_true(v[-1] == 32):
        v.pop()
    return v


def text(values):
    return bytes(values).decode('ascii')


def standard_inquiry_text(ctx, field, offset, size):
    raw = list(ctx.bytes('text', size))
    ctx.assume(ctx.And(*[b < 128 for b in raw]))
    data = [0, 0, 5, 2, 31, 0, 0, 2] + list(VENDOR + PRODUCT + REV)
    data[offset:offset + size] = raw
    r = inquire(ctx, data)
    ctx.check(r.ok, 'a full response is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    want = {'t10_vendor_identification': list(VENDOR), 'product_identification': list(PRODUCT),
            'product_revision_level': list(REV)}
    want[field] = strip_right(ctx, raw)
    for name in want:
        ctx.eq(getattr(r.value, name), text(want[name]), name)
    ctx.check(r.value.extended is None, 'no extended data without additional bytes')
    ctx.observe(field, getattr(r.value, field))


for _f, _o, _n in (('t10_vendor_identification', 8, 8), ('product_identification', 16, 16),
                   ('product_revision_level', 32, 4)):
    harness('standard-inquiry', 'standard_inquiry_' + _f, reach=('decoded',), field=_f, offset=_o, size=_n,
            bounds='every ASCII content of the field')(standard_inquiry_text)


@harness('standard-inquiry', reach=('extended', 'basic', 'short'), quick=dict(seconds=250),
         thorough=dict(seconds=700, paths=100000),
         bounds='responses cut at every length of a list (all lengths 0..130 thorough), ADDITIONAL LENGTH in a list '
                'around every boundary (every value thorough), extended bytes symbolic')
def standard_inquiry_extended(ctx):
    if ctx.thorough:
        n = ctx.pick('n', 0, 130)
        add = ctx.choice('additional', sorted(set(list(range(24, 140, 3)) + [0, 31, 32, 51, 52, 53, 54, 69, 70, 91, 92,
                                                                             93, 159, 255])))
    else:
        n = ctx.choice('n', (0, 1, 4, 5, 8, 35, 36, 37, 55, 56, 57, 58, 59, 60, 61, 73, 74, 75, 95, 96, 97, 100, 130))
        add = ctx.choice('additional', (0, 30, 31, 32, 51, 52, 53, 54, 55, 56, 69, 70, 91, 92, 93, 159, 255))
    head = [0, 0, 5, 2, add, 0, 0, 2] + list(VENDOR + PRODUCT + REV)
    tail = list(ctx.bytes('tail', max(n - 36, 0)))
    data = (head + tail)[:n]
    r = inquire(ctx, data)
    if n < 36:
        ctx.reach('short')
        ctx.check(not r.ok, 'fewer than 36 bytes is an error')
        return
    ctx.check(r.ok, 'a response of at least 36 bytes is decoded')
    if not r.ok:
        return
    v = r.value
    ctx.eq(v.product_revision_level, 'r1.2', 'revision')
    if add <= 31:
        ctx.reach('basic')
        ctx.check(v.extended is None, 'no extended data without additional bytes')
        return
    ext = tail[:add + 5 - 36]
    e = v.extended
    ctx.reach('extended')
    ctx.check(e is not None, 'extended data')
    if e is None:
        return
    ctx.eq(e.vendor_specific_1, ext[:20], 'vendor specific bytes 36..55')
    if len(ext) >= 21:
        ctx.check(ctx.And(e.ius == bits(ext[20], 0, 0), e.qas == bits(ext[20], 1, 1),
                          e.clocking == bits(ext[20], 3, 2)), 'IUS, QAS, CLOCKING')
    else:
        ctx.check(e.ius is None and e.qas is None and e.clocking is None, 'absent fields are absent')
    if len(ext) >= 24:
        k = min((len(ext) - 22) // 2, 8)
        ctx.eq(list(e.version_descriptors), [num(ext, 22 + 2 * i, 2) for i in range(k)], 'version descriptors')
    else:
        ctx.check(not e.version_descriptors, 'absent fields are absent')
    if len(ext) >= 61:
        ctx.eq(e.vendor_specific_2, ext[60:], 'vendor specific bytes from 96')
    else:
        ctx.check(e.vendor_specific_2 is None, 'absent fields are absent')


@harness('standard-inquiry', reach=('packed',), quick=dict(seconds=200), bounds='every header field, text constant')
def standard_inquiry_pack(ctx):
    """what is packed is where the standard puts it; one header byte at a time is arbitrary"""
    from infi.asi.cdb.inquiry.standard import StandardInquiryDataBuffer, PeripheralDeviceDataBuffer
    free = ctx.pick('free_byte', 0, 7)
    ctx.assume(free != 4)
    kw, want = {}, [0] * 8
    for name, byte, hi, lo in STD_BITS:
        if name == 'additional_length':
            continue
        kw[name] = ctx.int(name, 0, 2 ** (hi - lo + 1) - 1) if byte == free else (byte * 3 + hi) & (2 ** (hi - lo + 1) - 1)
        want[byte] = want[byte] | (kw[name] << lo)
    q, t = (ctx.int('qualifier', 0, 7), ctx.int('type', 0, 31)) if free == 0 else (1, 13)
    want[0] = t | (q << 5)
    want[4] = 31
    b = StandardInquiryDataBuffer(peripheral_device=PeripheralDeviceDataBuffer(qualifier=q, type=t),
                                  t10_vendor_identification='V', product_identification='PROD',
                                  product_revision_level='0001', **kw)
    raw = b.pack()
    ctx.reach('packed')
    ctx.eq(raw, want + list(b'V       PROD            0001'), 'packed bytes')


# ----------------------------------------------------------------------------------------------------- VPD pages
def vpd(ctx, page, data):
    import infi.asi.cdb.inquiry.vpd_pages as m
    return one_command(ctx, lambda: m.get_vpd_page(page)(), bytes(data))[0]


def B(byte, hi, lo):
    return lambda d: bits(d[byte], hi, lo)


def N(start, n):
    return lambda d: num(d, start, n)


FIXED_PAGES = {
    0xb0: ('block_limits', 64, (
        ('wsnz', B(4, 0, 0)), ('maximum_compare_and_write_length', N(5, 1)),
        ('optimal_transfer_length_granularity', N(6, 2)), ('maximum_transfer_length', N(8, 4)),
        ('optimal_transfer_length', N(12, 4)), ('maximum_prefetch_xdread_xdwrite_transfer_length', N(16, 4)),
        ('maximum_unmap_lba_count', N(20, 4)), ('maximum_unmap_block_descriptor_count', N(24, 4)),
        ('optimal_unmap_granularity', N(28, 4)),
        ('unmap_granularity_alignment', lambda d: num([d[32] & 0x7f, d[33], d[34], d[35]])),
        ('ugavalid', B(32, 7, 7)), ('maximum_write_same_length', N(36, 8))), 44),
    0xb2: ('logical_block_provisioning', 8, (
        ('threshold_exponent', N(4, 1)), ('dp', B(5, 0, 0)), ('anc_sup', B(5, 1, 1)), ('lbprz', B(5, 2, 2)),
        ('lbpws10', B(5, 5, 5)), ('lbpws', B(5, 6, 6)), ('lbpu', B(5, 7, 7)), ('provisioning_type', B(6, 2, 0))), 5),
    0xc0: ('veritas', 8, (
        ('is_thin_lun', B(4, 0, 0)), ('is_snapshot_lun', B(4, 1, 1)), ('is_space_optimized_src', B(4, 2, 2)),
        ('is_fcdisk_lun', B(4, 3, 3)), ('is_satadisk_lun', B(4, 4, 4)), ('is_replication_src', B(4, 5, 5)),
        ('is_replication_dst', B(4, 6, 6)), ('raid_type', N(5, 1))), 6),
}


def vpd_fixed(ctx, page):
    name, size, fields, need = FIXED_PAGES[page]
    n = ctx.choice('n', sorted(set([0, 1, 3, 4, need - 1, size] + ([need] if page != 0xb2 else []))))
    if n > size:
        n = size
    data = list(ctx.bytes('page', n))
    r = vpd(ctx, page, data)
    if n < need:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response without the fields is an error')
        return
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, data[0])
    ctx.check(v.page_code == data[1], 'page code')
    ctx.check(v.page_length == num(data, 2, 2), 'page length')
    for fname, want in fields:
        ctx.check(getattr(v, fname) == want(data), fname)
        ctx.observe(fname, getattr(v, fname))


for _p in FIXED_PAGES:
    harness('vpd-pages', 'vpd_' + FIXED_PAGES[_p][0], reach=('decoded', 'short'), page=_p,
            bounds='every byte of the page symbolic; responses of the full size and cut short')(vpd_fixed)


@harness('vpd-pages', reach=('decoded', 'cut'), bounds='0..6 (0..40 thorough) pages listed, all bytes symbolic, reply cut or padded')
def vpd_supported_pages(ctx):
    top = 40 if ctx.thorough else 6
    n = ctx.pick('n', 4, 4 + top)
    data = list(ctx.bytes('page', n))
    ctx.assume(ctx.And(data[2] == 0, data[3] <= top + 2))
    r = vpd(ctx, 0x00, data)
    if ctx.is_true(data[3] > n - 4):
        ctx.reach('cut')
        if r.ok:
            ctx.eq(list(r.value.vpd_parameters), data[4:], 'a cut list holds what was sent')
        return
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, data[0])
    ctx.check(v.page_code == data[1], 'page code')
    ctx.check(v.page_length == data[3], 'page length')
    k = len(v.vpd_parameters)
    ctx.check(k == data[3], 'number of pages')
    ctx.eq(list(v.vpd_parameters), data[4:4 + k], 'supported pages, in order')
    ctx.observe('pages', list(v.vpd_parameters))


@harness('vpd-pages', reach=('decoded',), bounds='pages listing 200 and 248 page codes, last four symbolic')
def vpd_supported_pages_long(ctx):
    k = ctx.choice('k', (127, 128, 200, 248))
    last = list(ctx.bytes('last', 4))
    codes = [i & 0xff for i in range(k - 4)] + last
    data = [0, 0] + be(k, 2) + codes
    r = vpd(ctx, 0x00, data)
    ctx.check(r.ok, 'a full page is decoded')
    ctx.reach('decoded')
    ctx.eq(list(r.value.vpd_parameters), codes, 'supported pages, in order')


@harness('vpd-pages', reach=('decoded',), bounds='serial numbers of 0..8 (0..20 thorough) ASCII characters, 0..2 bytes after the page')
def vpd_unit_serial(ctx):
    k = ctx.pick('k', 0, 20 if ctx.thorough else 8)
    slack = ctx.pick('slack', 0, 2)
    serial = list(ctx.bytes('serial', k))
    ctx.assume(ctx.And(*[b < 128 for b in serial]))
    head = list(ctx.bytes('head', 2))
    data = head + be(k, 2) + serial + list(ctx.bytes('slack_bytes', slack))
    r = vpd(ctx, 0x80, data)
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, head[0])
    ctx.check(v.page_code == head[1], 'page code')
    ctx.check(v.page_length == k, 'page length')
    want = serial
    got = v.product_serial_number
    ctx.check(len(got) <= k, 'no characters from beyond the page')
    # leading blanks are significant; trailing padding may be dropped
    ctx.eq(got, text(serial[:len(got)]), 'serial number')
    ctx.check(ctx.And(*[ctx.Or(b == 0, b == 32) for b in serial[len(got):]]), 'only padding is dropped')
    ctx.observe('serial', got)


@harness('vpd-pages', reach=('decoded',), bounds='serial numbers of 128, 200 and 248 characters, last four symbolic')
def vpd_unit_serial_long(ctx):
    k = ctx.choice('k', (20, 127, 128, 200, 248))
    last = list(ctx.bytes('last', 4))
    ctx.assume(ctx.And(*[ctx.And(b > 32, b < 128) for b in last]))
    serial = [0x41 + i % 26 for i in range(k - 4)] + last
    r = vpd(ctx, 0x80, [0, 0x80] + be(k, 2) + serial)
    ctx.check(r.ok, 'a full page is decoded')
    ctx.reach('decoded')
    ctx.eq(r.value.product_serial_number, text(serial), 'serial number')


@harness('vpd-pages', reach=('decoded',),
         bounds='unknown page codes, 0..6 bytes of page data (0..40 thorough), 0..2 bytes after the page')
def vpd_unknown(ctx):
    page = ctx.choice('page', (0x81, 0x86, 0xb1, 0xff))
    k = ctx.pick('k', 0, 40 if ctx.thorough else 6)
    slack = ctx.pick('slack', 0, 2)
    body = list(ctx.bytes('body', k))
    head = list(ctx.bytes('head', 2))
    r = vpd(ctx, page, head + be(k, 2) + body + list(ctx.bytes('slack_bytes', slack)))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, head[0])
    ctx.check(v.page_code == head[1], 'page code')
    ctx.check(v.page_length == k, 'page length')
    ctx.eq(list(v.page_data), body, 'page data')


@harness('vpd-pages', reach=('decoded',), bounds='unknown pages of 255, 256 and 300 bytes, last four symbolic')
def vpd_unknown_long(ctx):
    k = ctx.choice('k', (127, 128, 255, 256, 300))
    last = list(ctx.bytes('last', 4))
    body = [i & 0xff for i in range(k - 4)] + last
    r = vpd(ctx, 0xb1, [0, 0xb1] + be(k, 2) + body)
    ctx.check(r.ok, 'a full page is decoded')
    ctx.reach('decoded')
    ctx.check(r.value.page_length == k, 'page length')
    ctx.eq(list(r.value.page_data), body, 'page data')


# ------------------------------------------------------------------------------------------------ ATA information
def ata_page():
    d = [0] * 572
    d[1] = 0x89
    d[2:4] = [0x02, 0x38]
    d[8:16] = list(b'linux   ')
    d[16:32] = list(b'libata          ')
    d[32:36] = list(b'3.00')
    d[36] = 0x34
    d[56] = 0xec
    return d


def swap_words(values):
    out = []
    for i in range(0, len(values), 2):
        out += [values[i + 1], values[i]]
    return out


@harness('vpd-pages', reach=('decoded', 'short'), quick=dict(seconds=200),
         bounds='numeric bytes of the page (header, device signature, command code) symbolic; text constant')
def vpd_ata_numbers(ctx):
    d = ata_page()
    n = ctx.choice('n', (572, 151, 60, 4))
    d[0:4] = list(ctx.bytes('head', 4))
    d[36:40] = list(ctx.bytes('sig', 4))
    d[43] = ctx.int('device', 0, 255)
    d[48:50] = list(ctx.bytes('count', 2))
    d[56] = ctx.int('command', 0, 255)
    r = vpd(ctx, 0x89, d[:n])
    if n < 572:
        ctx.reach('short')
        ctx.check(not r.ok, 'a response without the IDENTIFY DEVICE data is an error')
        return
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, d[0])
    s = v.device_signature
    for name, got, want in (('page code', v.page_code, d[1]), ('page length', v.page_length, num(d, 2, 2)),
                            ('command code', v.command_code, d[56]), ('transport id', s.transport_id, d[36]),
                            ('PM port', s.pm_port, bits(d[37], 3, 0)), ('interrupt', s.interrupt, bits(d[37], 6, 6)),
                            ('status', s.status, d[38]), ('error', s.error, d[39]), ('device', s.device, d[43]),
                            ('sector count', s.sector_count, num(d, 48, 2))):
        ctx.check(got == want, name)
        ctx.observe(name, got)


@harness('vpd-pages', reach=('decoded',), quick=dict(seconds=200), bounds='every value of the six LBA bytes of the device signature')
def vpd_ata_lba(ctx):
    d = ata_page()
    lba = list(ctx.bytes('lba', 6))
    d[40:43] = lba[:3]
    d[44:47] = lba[3:]
    r = vpd(ctx, 0x89, d)
    ctx.check(r.ok, 'a full page is decoded whatever the signature')
    if not r.ok:
        return
    ctx.reach('decoded')
    got = r.value.device_signature.lba
    if isinstance(got, str):
        got = got.encode('latin-1')
    got = list(got)
    ctx.check(len(got) <= 6, 'six LBA bytes')
    ctx.eq(got, lba[:len(got)], 'LBA bytes, in page order')
    ctx.check(ctx.And(*[ctx.Or(b == 0, b == 32) for b in lba[len(got):]]), 'only trailing padding is dropped')


ATA_TEXT = {'sat_vendor_identification': (8, 8), 'sat_product_identification': (16, 16),
            'sat_product_revision_level': (32, 4), 'serial_number': (80, 20), 'firmware_revision': (106, 8),
            'model_number': (114, 40)}


def vpd_ata_text(ctx, field, free):
    offset, size = ATA_TEXT[field]
    ata = field in ('serial_number', 'firmware_revision', 'model_number')
    d = ata_page()
    want = [0x30 + i for i in range(size)]
    raw = list(ctx.bytes('text', min(size, free)))
    ctx.assume(ctx.And(*[b < 128 for b in raw]))
    want[size - len(raw):] = raw
    d[offset:offset + size] = swap_words(want) if ata else want
    r = vpd(ctx, 0x89, d)
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    got = getattr(r.value.identify_device if ata else r.value, field)
    ctx.eq(got, text(strip_right(ctx, want)), field)
    ctx.observe(field, got)


for _f in ATA_TEXT:
    harness('vpd-pages', 'vpd_ata_' + _f, reach=('decoded',), quick=dict(seconds=250), thorough=dict(seconds=600),
            field=_f, free=10, bounds='last 10 characters of the field any ASCII value, the others constant'
            )(vpd_ata_text)


# --------------------------------------------------------------------------------------------------- designators
def D_naa(v):
    return lambda d: num([d[4] & 15] + d[5:12])


# kind -> (designator type, length, constraint on first data byte, class name, fields)
DESIGNATORS = {
    'eui8': (2, 8, None, 'EUI64_Designator', (('ieee_company', N(4, 3)),
                                              ('vendor_specific_extension_identifer', N(7, 5)))),
    'eui12': (2, 12, None, 'EUI64_12Byte_Designator', (('ieee_company', N(4, 3)),
                                                       ('vendor_specific_extension_identifer', N(7, 5)),
                                                       ('directory_id', N(12, 4)))),
    'eui16': (2, 16, None, 'EUI64_16Byte_Designator', (('identifier_extension', N(4, 8)), ('ieee_company', N(12, 3)),
                                                       ('vendor_specific_extension_identifer', N(15, 5)))),
    'naa2': (3, 8, 2, 'NAA_IEEE_Extended_Designator', (
        ('naa', B(4, 7, 4)), ('vendor_specific_identifier_a', lambda d: num([d[4] & 15, d[5]])),
        ('ieee_company', N(6, 3)), ('vendor_specific_identifier_b', N(9, 3)))),
    'naa3': (3, 8, 3, 'NAA_Locally_Assigned_Designator', (
        ('naa', B(4, 7, 4)), ('locally_administered_value', lambda d: num([d[4] & 15] + d[5:12])))),
    'naa5': (3, 8, 5, 'NAA_IEEE_Registered_Designator', (
        ('naa', B(4, 7, 4)), ('ieee_company_id', lambda d: num([d[4] & 15] + d[5:8]) >> 4),
        ('vendor_specific_identifier', lambda d: num([d[7] & 15] + d[8:12])))),
    'naa6': (3, 16, 6, 'NAA_IEEE_Registered_Extended_Designator', (
        ('naa', B(4, 7, 4)), ('ieee_company_id', lambda d: num([d[4] & 15] + d[5:8]) >> 4),
        ('vendor_specific_identifier', lambda d: num([d[7] & 15] + d[8:12])),
        ('vendor_specific_identifier_extension', N(12, 8)))),
    'rtp': (4, 4, None, 'RelativeTargetPortDesignator', (('relative_target_port_identifier', N(6, 2)),)),
    'tpg': (5, 4, None, 'TargetPortGroupDesignator', (('target_port_group', N(6, 2)),)),
    'lug': (6, 4, None, 'LogicalUnitGroupDesignator', (('logical_unit_group', N(6, 2)),)),
    'md5': (7, 16, None, 'MD5LogicalUnitDesignator', (('md5_logical_unit_identifier', lambda d: d[4:]),)),
    'name': (8, 5, None, 'SCSINameDesignator', (('scsi_name_string', lambda d: d[4:]),)),
    'name0': (8, 0, None, 'SCSINameDesignator', (('scsi_name_string', lambda d: d[4:]),)),
    'vendor': (0, 3, None, 'VendorSpecificDesignator', (('vendor_specific_identifier', lambda d: d[4:]),)),
    'vendor0': (0, 0, None, 'VendorSpecificDesignator', (('vendor_specific_identifier', lambda d: d[4:]),)),
    't10': (1, 11, None, 'T10VendorIDDesignator', (('vendor_specific_identifier', lambda d: d[12:]),)),
    't10_8': (1, 8, None, 'T10VendorIDDesignator', (('vendor_specific_identifier', lambda d: d[12:]),)),
    'proto': (9, 8, None, 'Reserved_Designator', ()),
    'uuid': (10, 18, None, 'Reserved_Designator', ()),
    'res15': (15, 2, None, 'Reserved_Designator', ()),
}


def make_designator(ctx, name, kind):
    dtype, length, naa, cls, fields = DESIGNATORS[kind]
    d = list(ctx.bytes(name, 4 + length))
    ctx.assume(bits(d[1], 3, 0) == dtype)
    d[3] = length
    if naa is not None:
        ctx.assume(bits(d[4], 7, 4) == naa)
    if dtype == 1:
        d[4:12] = list(b'INFINIDA')
    return d


def check_designator(ctx, got, d, kind):
    dtype, length, naa, cls, fields = DESIGNATORS[kind]
    ctx.check(type(got).__name__ == cls, kind + ': designator class')
    for name, want in (('code_set', bits(d[0], 3, 0)), ('protocol_identifier', bits(d[0], 7, 4)),
                       ('designator_type', bits(d[1], 3, 0)), ('association', bits(d[1], 5, 4)),
                       ('piv', bits(d[1], 7, 7)), ('designator_length', length)):
        ctx.check(getattr(got, name) == want, kind + ': ' + name)
    for name, want in fields:
        ctx.eq(getattr(got, name), want(d), kind + ': ' + name)
        ctx.observe(name, getattr(got, name))
    if dtype == 1:
        ctx.eq(got.t10_vendor_identification, 'INFINIDA', kind + ': vendor')


def designator_single(ctx, kind):
    """one designator of the kind, followed by another one that must be found where it is"""
    d = make_designator(ctx, 'd', kind)
    follow = make_designator(ctx, 'f', 'tpg')
    head = list(ctx.bytes('head', 2))
    slack = list(ctx.bytes('slack', ctx.choice('slack', (0, 3))))
    r = vpd(ctx, 0x83, head + be(len(d) + len(follow), 2) + d + follow + slack)
    ctx.check(r.ok, 'a well-formed page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    check_peripheral(ctx, v, head[0])
    ctx.check(v.page_code == head[1], 'page code')
    ctx.check(v.page_length == len(d) + len(follow), 'page length')
    ctx.check(len(v.designators_list) == 2, 'every designator, and no other')
    if len(v.designators_list) != 2:
        return
    check_designator(ctx, v.designators_list[0], d, kind)
    check_designator(ctx, v.designators_list[1], follow, 'tpg')


for _k in DESIGNATORS:
    harness('designators', 'designator_' + _k, reach=('decoded',), kind=_k, quick=dict(seconds=200),
            bounds='every content of one %s designator and of the one after it' % _k)(designator_single)


@harness('designators', reach=('decoded',), quick=dict(seconds=300), thorough=dict(seconds=700, paths=60000),
         bounds='0..2 designators (0..3 thorough) of each of 8 kinds in any order, contents symbolic')
def designator_sequence(ctx):
    kinds = ('naa6', 'rtp', 'eui8', 't10', 'name', 'vendor', 'md5', 'naa5')
    k = ctx.pick('k', 0, 3 if ctx.thorough else 2)
    seq = [ctx.choice('kind%d' % i, kinds) for i in range(k)]
    ds = [make_designator(ctx, 'd%d' % i, s) for i, s in enumerate(seq)]
    body = []
    for d in ds:
        body += d
    r = vpd(ctx, 0x83, [0, 0x83] + be(len(body), 2) + body)
    ctx.check(r.ok, 'a well-formed page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(len(r.value.designators_list) == k, 'every designator, and no other')
    for got, d, s in zip(r.value.designators_list, ds, seq):
        check_designator(ctx, got, d, s)


@harness('designators', reach=('decoded',), quick=dict(seconds=250),
         bounds='pages of 12, 31, 64 and 260 designators of 8 kinds in turn (pages of up to 4 KiB), first and last symbolic')
def designator_many(ctx):
    kinds = ('rtp', 'naa6', 'eui8', 't10', 'name', 'vendor', 'md5', 'naa5')
    k = ctx.choice('k', (12, 31, 64, 260))
    seq = [kinds[i % 8] for i in range(k)]
    ds = []
    for i, s in enumerate(seq):
        if i in (0, k - 1):
            ds.append(make_designator(ctx, 'd%d' % i, s))
            continue
        dtype, length, naa, cls, fields = DESIGNATORS[s]
        d = [1, dtype, 0, length] + [(i + 3 * j) & 0xff for j in range(length)]
        if naa is not None:
            d[4] = naa << 4 | i & 15
        if dtype == 1:
            d[4:12] = list(b'INFINIDA')
        ds.append(d)
    body = [b for d in ds for b in d]
    r = vpd(ctx, 0x83, [0, 0x83] + be(len(body), 2) + body)
    ctx.check(r.ok, 'a well-formed page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(len(r.value.designators_list) == k, 'every designator, and no other')
    for got, d, s in zip(r.value.designators_list, ds, seq):
        check_designator(ctx, got, d, s)


@harness('designators', reach=('error',), bounds='EUI-64 designators of every other length up to 20, NAA formats outside 2, 3, 5, 6')
def designator_unrecognised(ctx):
    """what cannot be recognised is not reported as something else"""
    which = ctx.choice('which', ('eui', 'naa'))
    if which == 'eui':
        n = ctx.choice('n', (1, 4, 7, 9, 10, 15, 17, 20))
        d = list(ctx.bytes('d', 4 + n))
        ctx.assume(bits(d[1], 3, 0) == 2)
        d[3] = n
    else:
        d = list(ctx.bytes('d', 12))
        ctx.assume(bits(d[1], 3, 0) == 3)
        d[3] = 8
        naa = bits(d[4], 7, 4)
        ctx.assume(ctx.And(naa != 2, naa != 3, naa != 5, naa != 6))
    r = vpd(ctx, 0x83, [0, 0x83] + be(len(d), 2) + d)
    if not r.ok:
        ctx.reach('error')
        return
    names = [type(x).__name__ for x in r.value.designators_list]
    ctx.check(len(names) == 1 and not names[0].startswith(('NAA_IEEE', 'NAA_Loc', 'EUI64')),
              'an unrecognised designator is not reported as a known format')


@harness('designators', reach=('decoded', 'none'), quick=dict(seconds=200),
         bounds='provisioning group descriptor of each of 4 kinds, contents symbolic; and none')
def lbp_provisioning_group(ctx):
    kind = ctx.choice('kind', ('none', 'naa6', 'naa5', 't10', 'vendor'))
    head = list(ctx.bytes('head', 8))
    d = [] if kind == 'none' else make_designator(ctx, 'd', kind)
    r = vpd(ctx, 0xb2, head + d)
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    if kind == 'none':
        ctx.reach('none')
        ctx.check(r.value.provisioning_group_descriptor is None, 'no provisioning group')
    else:
        ctx.reach('decoded')
        check_designator(ctx, r.value.provisioning_group_descriptor, d, kind)


def designator_pack(ctx, kind):
    """a designator that is built and packed holds what was put in, where the standard puts it"""
    import infi.asi.cdb.inquiry.vpd_pages.designators as m
    dtype, length, naa, cls, fields = DESIGNATORS[kind]
    # one field at a time is arbitrary: packing forks on the bit length of every number
    free = ctx.choice('free', [n for n, w in fields if n != 'naa'] + ['header'])
    d = make_designator(ctx, 'd', kind)
    const = [0x61, 0x80 | dtype, 0, length] + [0x13 + 7 * i & 0xff for i in range(length)]
    if naa is not None:
        const[4] = naa << 4 | 9
    obj = getattr(m, cls)()
    head = d if free == 'header' else const
    obj.code_set, obj.protocol_identifier = bits(head[0], 3, 0), bits(head[0], 7, 4)
    obj.association, obj.piv = bits(head[1], 5, 4), bits(head[1], 7, 7)
    obj.designator_type = dtype
    obj.reserved = 0
    obj.designator_length = length
    values = {}
    for name, want in fields:
        w = want(d if name == free else const)
        values[name] = w
        setattr(obj, name, bytearray(w) if isinstance(w, list) else w)
    if dtype == 1:
        obj.t10_vendor_identification = 'INFINIDA'
    raw = list(obj.pack())
    ctx.reach('packed')
    ctx.check(raw[3] == length, kind + ': DESIGNATOR LENGTH counts the bytes that follow it')
    ctx.check(len(raw) == 4 + length, kind + ': size')
    ctx.eq(raw[:3], [head[0], dtype | (bits(head[1], 5, 4) << 4) | (bits(head[1], 7, 7) << 7), 0], kind + ': header')
    if dtype == 1:
        ctx.eq(raw[4:12], b'INFINIDA', kind + ': vendor')
    back = getattr(m, cls)()
    back.unpack(bytes(raw))
    for name, want in fields:
        ctx.eq(want(raw), values[name], kind + ': ' + name + ' is where the standard puts it')
        ctx.eq(getattr(back, name), values[name], kind + ': ' + name + ' decodes to what was packed')


for _k in ('t10', 'name', 'vendor', 'md5', 'naa2', 'eui8', 'eui12', 'eui16', 'naa3', 'naa5', 'naa6', 'rtp', 'tpg', 'lug'):
    harness('designators', 'designator_pack_' + _k, reach=('packed',), kind=_k,
            bounds='every value of one field of one %s designator at a time, the others constant' % _k)(designator_pack)
