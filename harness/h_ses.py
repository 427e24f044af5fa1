"""SCSI enclosure services: RECEIVE DIAGNOSTIC RESULTS and the pages it returns."""
from .api import harness, be, num, bits, RecordingExecuter, run_command
from .h_misc import one_command

M = 'infi.asi.cdb.diagnostic.ses_pages'
KNOWN_PAGES = {0x00: ('SupportedDiagnosticPagesCommand', 'SupportedDiagnosticPagesData', 255),
               0x01: ('ConfigurationDiagnosticPagesCommand', 'ConfigurationDiagnosticPagesData', 65535),
               0x02: ('EnclosureStatusDiagnosticPagesCommand', 'EnclosureStatusDiagnosticPagesData', 65535),
               0x07: ('ElementDescriptorDiagnosticPagesCommand', 'ElementDescriptorDiagnosticPagesData', 65535),
               0x80: ('Vendor0x80DiagnosticPagesCommand', 'Vendor0x80DiagnosticPagesData', 255)}


class Stop(Exception):
    pass


class ConfPage(object):
    """a configuration page with the given (element type, number of possible elements)"""
    def __init__(self, headers):
        from infi.asi.cdb.diagnostic.ses_pages.configuration import TypeDescriptorHeader
        self.type_descriptor_header_list = []
        for t, n in headers:
            h = TypeDescriptorHeader()
            h.element_type, h.possible_elements_num = t, n
            h.subenclosure_identifier = h.type_descriptor_text_length = 0
            self.type_descriptor_header_list.append(h)


# --------------------------------------------------------------------------------------------------------- the CDB
@harness('ses-cdb', reach=('known', 'unknown'), bounds='every page code 0..255')
def ses_dispatch(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    from infi.asi import SCSIReadCommand
    page = ctx.int('page', 0, 255)
    cls = m.get_ses_page(page)
    data = m.get_ses_page_data(page)
    known = None
    for code in KNOWN_PAGES:
        if ctx.is_true(page == code):
            known = code
            ctx.check(cls is getattr(m, KNOWN_PAGES[code][0]), 'the command of a known page')
            ctx.check(data is getattr(m, KNOWN_PAGES[code][1]), 'the response layout of a known page')
            break
    ctx.reach('unknown' if known is None else 'known')
    conf = ConfPage([])
    cmd = cls(conf) if known in (2, 7) else cls()
    if known is None:
        ctx.check(data is m.UnknownDiagnosticPageData, 'other pages are decoded as raw bytes')
    ctx.check(cmd.result_class is data, 'the command decodes what it asked for')
    if known in (2, 7):
        ctx.check(cmd.conf_page is conf, 'the configuration page is the one given')
    exe = RecordingExecuter(Stop())
    r = ctx.outcome(lambda: run_command(cmd, exe))
    ctx.check(r.raised(Stop), 'the error of the executer reaches the caller')
    ctx.check(len(exe.commands) == 1, 'one command is issued')
    c = exe.commands[0]
    alloc = c.max_response_length
    ctx.check(isinstance(c, SCSIReadCommand), 'a read')
    ctx.eq(c.command, [0x1c, 1, page] + be(alloc, 2) + [0], 'RECEIVE DIAGNOSTIC RESULTS CDB: PCV, page, length')
    ctx.check(ctx.And(alloc >= 255, alloc <= 65535), 'the buffer holds a page')
    ctx.observe('cdb', c.command)


@harness('ses-cdb', reach=('sent', 'refused'), bounds='page code and allocation length from -4x to +4x of their fields')
def ses_cdb_args(ctx):
    from infi.asi.cdb.diagnostic import ReceiveDiagnosticResultCommand
    page = ctx.int('page', -1024, 1024)
    alloc = ctx.int('alloc', -2 ** 18, 2 ** 18)
    pcv = ctx.int('pcv', 0, 1)
    exe = RecordingExecuter(Stop())

    def go():
        cmd = ReceiveDiagnosticResultCommand(None, None, page_code=page, allocation_length=alloc, pcv=pcv)
        return run_command(cmd, exe)
    r = ctx.outcome(go)
    fits = ctx.And(page >= 0, page < 256, alloc >= 0, alloc < 65536)
    if not exe.commands:
        ctx.reach('refused')
        ctx.check(ctx.Not(fits), 'arguments that fit are accepted')
        return
    ctx.reach('sent')
    ctx.check(fits, 'arguments that do not fit are refused')
    ctx.eq(exe.commands[0].command, [0x1c, pcv, page] + be(alloc, 2) + [0], 'RECEIVE DIAGNOSTIC RESULTS CDB')
    ctx.check(exe.commands[0].max_response_length == alloc, 'expected length equals ALLOCATION LENGTH')


# ------------------------------------------------------------------------------------------------ pages as raw bytes
@harness('ses-pages', reach=('decoded',), bounds='0..8 page codes (0..40 thorough), every header byte symbolic')
def ses_supported(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    k = ctx.pick('k', 0, 40 if ctx.thorough else 8)
    head = list(ctx.bytes('head', 2))
    codes = list(ctx.bytes('codes', k))
    slack = ctx.choice('slack', (0, 3))
    data = head + be(k, 2) + codes + [0] * slack
    r, c = one_command(ctx, m.SupportedDiagnosticPagesCommand, bytes(data))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(r.value.page_code == head[0], 'page code')
    ctx.check(r.value.page_length == k, 'page length')
    ctx.eq(list(r.value.supported_pages), codes, 'supported pages, in order',
           known=('ses-supported-pages-slack', ctx.And(
               slack > 0, ctx.equal(list(r.value.supported_pages), codes + [0] * slack))))
    ctx.observe('codes', list(r.value.supported_pages))


@harness('ses-pages', reach=('decoded',), bounds='lengths 0..6 (0..40 thorough) and 128, 250')
def ses_vendor(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    k = ctx.choice('k', list(range(41 if ctx.thorough else 7)) + [128, 250])
    head = list(ctx.bytes('head', 2))
    sym = min(k, 40)
    body = [i & 0xff for i in range(k - sym)] + list(ctx.bytes('body', sym))
    slack = ctx.choice('slack', (0, 2))
    r, c = one_command(ctx, m.Vendor0x80DiagnosticPagesCommand, bytes(head + be(k, 2) + body + [0] * slack))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(r.value.page_code == head[0], 'page code')
    ctx.check(r.value.page_length == k, 'page length')
    ctx.eq(list(r.value.vendor_specific), body, 'vendor specific bytes', known=('ses-vendor-slack', ctx.And(
               slack > 0, ctx.equal(list(r.value.vendor_specific), body + [0] * slack))))


@harness('ses-pages', reach=('decoded',), bounds='pages of 252, 255, 256, 300 and 65535 bytes, of which 255 arrive; four symbolic')
def ses_cut(ctx):
    """a page longer than the allocation length: what arrived, and the length that the device reported"""
    import infi.asi.cdb.diagnostic.ses_pages as m
    cls, attr = ctx.choice('page', ((m.SupportedDiagnosticPagesCommand, 'supported_pages'),
                                    (m.Vendor0x80DiagnosticPagesCommand, 'vendor_specific')))
    k = ctx.choice('k', (252, 255, 256, 300, 65535))
    head = list(ctx.bytes('head', 2))
    ends = list(ctx.bytes('ends', 2))
    body = ends[:1] + [i & 0xff for i in range(249)] + ends[1:]
    r, c = one_command(ctx, cls, bytes(head + be(k, 2) + body))
    ctx.check(c.max_response_length == 255, 'the length asked for')
    ctx.check(r.ok, 'what arrived is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(r.value.page_code == head[0], 'page code')
    ctx.check(r.value.page_length == k, 'page length')
    ctx.eq(list(getattr(r.value, attr)), body, 'the bytes that arrived')


@harness('ses-pages', reach=('decoded',), bounds='any page code without a layout above 0x80, 0..12 bytes of page, slack')
def ses_unknown(ctx):
    """an unknown page: its code and its bytes are available to the caller"""
    import infi.asi.cdb.diagnostic.ses_pages as m
    code = ctx.int('code', 0x81, 0xff)
    b1 = ctx.int('b1', 0, 255)
    body = list(ctx.bytes('body', ctx.pick('k', 0, 12)))
    data = [code, b1] + be(len(body), 2) + body + [0] * ctx.choice('slack', (0, 3))
    r, c = one_command(ctx, lambda: m.get_ses_page(code)(), bytes(data))
    ctx.check(r.ok, 'a page without a known layout is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(r.value.page_code == code, 'page code')
    ctx.check(r.value.page_length == len(body), 'page length')
    ctx.eq(list(r.value.page_data), body, 'page data')


# ------------------------------------------------------------------------------------------------ configuration page
@harness('ses-pages', reach=('decoded',), quick=dict(seconds=300), thorough=dict(seconds=700),
         bounds='1..2 (3 thorough) enclosures with 36, 37 or 40 byte descriptors, 0..2 element types each with 0..2 bytes '
                'of text; every binary field symbolic; identification strings constant')
def ses_configuration(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    n = ctx.pick('enclosures', 1, 3 if ctx.thorough else 2)
    head = list(ctx.bytes('head', 8))
    head[1] = n - 1
    encl, headers, texts = [], [], []
    total = 0
    for i in range(n):
        extra = ctx.choice('extra%d' % i, (0, 4)) if i else ctx.choice('extra%d' % i, (0, 1))
        types = ctx.pick('types%d' % i, 0, 2) if i == 0 else ctx.pick('types%d' % i, 0, 1)
        total += types
        e = list(ctx.bytes('e%d' % i, 12)) + list(b'VENDOR01' + b'PRODUCT_NAME_123' + b'r1.2') + \
            list(ctx.bytes('x%d' % i, extra))
        e[2] = types
        e[3] = len(e) - 4
        encl.append(e)
    for i in range(total):
        h = list(ctx.bytes('h%d' % i, 4))
        h[3] = ctx.pick('text%d' % i, 0, 2)
        headers.append(h)
        texts.append(list(ctx.bytes('t%d' % i, h[3])))
    rest = [b for part in encl + headers + texts for b in part]
    head[2:4] = be(4 + len(rest), 2)
    data = head + rest + [0] * ctx.choice('slack', (0, 5))
    r, c = one_command(ctx, m.ConfigurationDiagnosticPagesCommand, bytes(data))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    ctx.check(v.page_code == head[0], 'page code')
    ctx.check(v.secondary_subenclosures_num == n - 1, 'number of secondary subenclosures')
    ctx.check(v.page_length == num(head, 2, 2), 'page length')
    ctx.check(v.generation_code == num(head, 4, 4), 'generation code')
    ctx.check(len(v.enclosure_descriptor_list) == n, 'one descriptor per enclosure')
    for d, e in zip(v.enclosure_descriptor_list, encl):
        ctx.check(d.enclosure_services_processes_num == bits(e[0], 2, 0), 'number of processes')
        ctx.check(d.relative_enclosure_services_process_identifier == bits(e[0], 6, 4), 'process id')
        ctx.check(d.subenclosure_identifier == e[1], 'subenclosure id of an enclosure')
        ctx.check(d.type_descriptor_headers_num == e[2], 'number of element types')
        ctx.check(d.enclosure_descriptor_length == e[3], 'descriptor length')
        ctx.eq(d.enclosure_logical_identifier, e[4:12], 'logical id')
        ctx.eq(d.enclosure_vendor_identification, 'VENDOR01', 'vendor')
        ctx.eq(d.product_identification, 'PRODUCT_NAME_123', 'product')
        ctx.eq(d.product_revision_level, 'r1.2', 'revision')
        ctx.eq(d.vendor_specific_enclosure_information, e[40:], 'vendor specific information')
    ctx.check(len(v.type_descriptor_header_list) == total, 'one header per element type')
    for d, h in zip(v.type_descriptor_header_list, headers):
        ctx.check(d.element_type == h[0], 'element type')
        ctx.check(d.possible_elements_num == h[1], 'number of possible elements')
        ctx.check(d.subenclosure_identifier == h[2], 'subenclosure id of an element type')
        ctx.check(d.type_descriptor_text_length == h[3], 'text length')
    got = list(v.type_descriptor_text_list)
    # texts that are empty at the very end of the page may be left out
    ctx.check(len(got) <= total and not any(texts[len(got):]), 'one text per element type')
    for d, t in zip(got, texts):
        ctx.eq(d, t, 'text of an element type')
    ctx.observe('gen', v.generation_code)


@harness('ses-pages', reach=('decoded',), quick=dict(seconds=200),
         bounds='one field at a limit: 127, 128, 200 element types; or a text of 127, 128 or 255 bytes; or 127..130 '
                'secondary enclosures')
def ses_configuration_many(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    what = ctx.choice('what', ('types', 'text', 'enclosures'))
    types = ctx.choice('types', (127, 128, 200)) if what == 'types' else 1
    text = ctx.choice('text', (127, 128, 255)) if what == 'text' else 1
    encl = ctx.choice('encl', (128, 129, 131)) if what == 'enclosures' else 1
    head = [1, encl - 1, 0, 0, 0, 0, 0, 1]
    data = list(head)
    for i in range(encl):
        data += [0x11, i, types if i == 0 else 0, 36] + [1, 2, 3, 4, 5, 6, 7, 8] + \
            list(b'VENDOR01' + b'PRODUCT_NAME_123' + b'r1.2')
    last = list(ctx.bytes('last', 2))
    for i in range(types):
        data += [last[0] if i == types - 1 else 1, last[1] if i == types - 1 else 2, 0, text]
    for i in range(types):
        data += [0x41 + i % 26] * text
    data[2:4] = be(len(data) - 4, 2)
    r, c = one_command(ctx, m.ConfigurationDiagnosticPagesCommand, bytes(data))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    ctx.check(v.page_length == len(data) - 4, 'page length')
    ctx.check(len(v.enclosure_descriptor_list) == encl, 'one descriptor per enclosure')
    ctx.eq([d.subenclosure_identifier for d in v.enclosure_descriptor_list], list(range(encl)), 'enclosure ids')
    ctx.check(len(v.type_descriptor_header_list) == types, 'one header per element type')
    ctx.check(v.type_descriptor_header_list[-1].element_type == last[0], 'last element type')
    ctx.check(v.type_descriptor_header_list[-1].possible_elements_num == last[1], 'last element count')
    for i, t in enumerate(v.type_descriptor_text_list):
        ctx.eq(t, [0x41 + i % 26] * text, 'text')


# ------------------------------------------------------------------------------------------------ enclosure status
def flags(byte, **names):
    return [(n, ('b', byte, hi if isinstance(hi, int) else hi[0], hi if isinstance(hi, int) else hi[1]))
            for n, hi in names.items()]


SLOT2 = flags(1, report=0, ident=1, rmv=2, ready_insert=3, encl_bypassed_b=4, encl_bypassed_a=5, do_not_remove=6,
              app_client_bypassed_a=7) + \
    flags(2, device_bypassed_b=0, device_bypassed_a=1, bypassed_b=2, bypassed_a=3, device_off=4, fault_reqstd=5,
          fault_sensed=6, app_client_bypassed_b=7)
FI = flags(0, fail=6, ident=7)
# SES-3 clause 7.3: element type -> fields of status bytes 1..3 (numbered 0..2 here)
ELEMENTS = {
    0x01: [('slot_address', ('u', 0, 1))] + SLOT2,
    0x02: flags(0, ident=7) + flags(1, dc_over_current=1, dc_under_voltage=2, dc_over_voltage=3) +
    flags(2, dc_fail=0, ac_fail=1, temp_warn=2, overtmp_fail=3, off=4, reqstd_on=5, fail=6, hot_swap=7),
    0x03: flags(0, ident=7) + [('fan_speed', ('fan',))] +
    flags(2, speed_code=(2, 0), off=4, reqstd_on=5, fail=6, hot_swap=7),
    0x04: FI + [('temperature', ('u', 1, 1))] + flags(2, ut_warn=0, ut_fail=1, ot_warn=2, ot_fail=3),
    0x05: FI + flags(2, unlocked=0, door_open=1),
    0x06: FI + flags(2, tui_unrecov=0, tui_crit=1, tui_non_crit=2, tui_info=3, remind=4, muted=6, rqst_mute=7),
    0x07: FI + flags(1, report=0) + flags(2, hot_swap=7),
    0x08: FI + flags(1, report=0),
    0x09: FI + flags(0, size_mult=(1, 0)) + [('cache_size', ('u', 1, 2))],
    0x0a: flags(0, invop_type=(7, 6)) + [('invop_bytes', ('u', 1, 2))],
    0x0b: [('battery_status', ('u', 0, 1))] +
    flags(1, intf_fail=0, warn=1, ups_fail=2, dc_fail=3, ac_fail=4, ac_qual=5, ac_hi=6, ac_low=7) +
    flags(2, bpf=0, batt_fail=1, fail=6, ident=7),
    0x0c: FI + flags(0, display_mode_status=(1, 0)) + [('display_char_status', ('u', 1, 2))],
    0x0d: FI,
    0x0e: flags(0, ident=7) + flags(1, warn_indication=0, failure_indication=1, time_until_power_cycle=(7, 2)) +
    flags(2, warn_requested=0, failure_requested=1, requested_power_off_duration=(7, 2)),
    0x0f: FI + flags(1, report=0) + flags(2, xmit_fail=0, lol=1, disabled=4),
    0x10: flags(0, ident=7) + [('language_code', ('u', 1, 2))],
    0x11: FI + flags(2, disabled=0),
    0x12: FI + flags(0, crit_under=0, crit_over=1, warn_under=2, warn_over=3) + [('voltage', ('s', 1, 2))],
    0x13: FI + flags(0, crit_over=1, warn_over=3) + [('current', ('s', 1, 2))],
    0x14: FI + flags(1, report=0) + flags(2, enabled=0),
    0x15: FI + flags(1, report=0) + flags(2, enabled=0),
    0x16: FI + [('short_enclosure_status', ('u', 2, 1))],
    0x17: flags(0, rr_abort=0, rebuild_remap=1, in_failed_array=2, in_crit_array=3, cons_chk=4, hot_spare=5,
                rsvd_device=6, ok=7) + SLOT2,
    0x18: FI,
    0x19: flags(0, connector_type=(6, 0), ident=7) + [('connector_phys_link', ('u', 1, 1))] + flags(2, fail=6),
}


def want(ctx, info, spec):
    if spec[0] == 'b':
        return bits(info[spec[1]], spec[2], spec[3])
    if spec[0] == 'u':
        return num(info, spec[1], spec[2])
    if spec[0] == 's':
        n = num(info, spec[1], spec[2])
        return ctx.ite(n >= 1 << (8 * spec[2] - 1), n - (1 << (8 * spec[2])), n)
    return (bits(info[0], 2, 0) << 8) | info[1]


def check_common(ctx, v, e):
    ctx.check(v.element_status_code == bits(e[0], 3, 0), 'element status code')
    ctx.check(v.swap == bits(e[0], 4, 4), 'SWAP')
    ctx.check(v.disabled == bits(e[0], 5, 5), 'DISABLED')
    ctx.check(v.prdfail == bits(e[0], 6, 6), 'PRDFAIL')


def status_page(ctx, headers, body, head=None, slack=0):
    import infi.asi.cdb.diagnostic.ses_pages as m
    head = head or [2, 0, 0, 0, 0, 0, 0, 1]
    head[2:4] = be(4 + len(body), 2)
    conf = ConfPage(headers)
    return one_command(ctx, lambda: m.EnclosureStatusDiagnosticPagesCommand(conf), bytes(head + body + [0] * slack))[0]


@harness('ses-status', reach=('known', 'general'), quick=dict(seconds=200), bounds='every element type 0..255, every status of one overall and two elements')
def ses_element(ctx):
    t = ctx.int('type', 0, 255)
    head = list(ctx.bytes('head', 8))
    body = list(ctx.bytes('body', 12))
    r = status_page(ctx, [(t, 2)], body, head)
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    v = r.value
    ctx.check(v.page_code == head[0], 'page code')
    for name, bit in (('unrecov', 0), ('crit', 1), ('non_crit', 2), ('info', 3), ('invop', 4)):
        ctx.check(getattr(v, name) == bits(head[1], bit, bit), name)
    ctx.check(v.page_length == 16, 'page length')
    ctx.check(v.generation_code == num(head, 4, 4), 'generation code')
    ctx.check(len(v.status_descriptors) == 1, 'one status descriptor per element type')
    d = v.status_descriptors[0]
    check_common(ctx, d.overall_element, body)
    ctx.eq([x & 0xff for x in d.overall_element.status_info.general], body[1:4], 'overall status bytes')
    ctx.check(len(d.individual_elements) == 2, 'one element status per possible element')
    spec = None
    for code in ELEMENTS:
        if ctx.is_true(t == code):
            spec = ELEMENTS[code]
            break
    ctx.reach('general' if spec is None else 'known')
    for i, e in enumerate(d.individual_elements):
        raw = body[4 + 4 * i:8 + 4 * i]
        check_common(ctx, e, raw)
        if spec is None:
            ctx.eq([x & 0xff for x in e.status_info.general], raw[1:4], 'status bytes of other element types')
            continue
        for name, where in spec:
            ctx.check(getattr(e.status_info, name) == want(ctx, raw[1:4], where),
                      '%s of element type 0x%02x' % (name, code))
        ctx.observe('first', getattr(e.status_info, spec[0][0]))


@harness('ses-status', reach=('decoded',), quick=dict(seconds=200), thorough=dict(seconds=700),
         bounds='0..2 element types (3 thorough) from {device slot, cooling, other} with 0..2 elements each')
def ses_status_shapes(ctx):
    headers = []
    for i in range(ctx.pick('types', 0, 3 if ctx.thorough else 2)):
        headers.append((ctx.choice('type%d' % i, (0x01, 0x03, 0x55)), ctx.pick('count%d' % i, 0, 2)))
    parts = [list(ctx.bytes('p%d' % i, 4 + 4 * n)) for i, (t, n) in enumerate(headers)]
    body = [b for p in parts for b in p]
    r = status_page(ctx, headers, body, slack=ctx.choice('slack', (0, 4)))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(len(r.value.status_descriptors) == len(headers), 'one status descriptor per element type')
    for d, p, (t, n) in zip(r.value.status_descriptors, parts, headers):
        check_common(ctx, d.overall_element, p)
        ctx.check(len(d.individual_elements) == n, 'one element status per possible element')
        for i, e in enumerate(d.individual_elements):
            raw = p[4 + 4 * i:8 + 4 * i]
            check_common(ctx, e, raw)
            if t == 1:
                ctx.check(e.status_info.slot_address == raw[1], 'slot address')
            elif t == 3:
                ctx.check(e.status_info.speed_code == bits(raw[3], 2, 0), 'speed code')
            else:
                ctx.eq([x & 0xff for x in e.status_info.general], raw[1:4], 'status bytes')


@harness('ses-status', reach=('decoded',), quick=dict(seconds=200), bounds='127, 128 or 255 elements of one type, the last symbolic')
def ses_status_many(ctx):
    n = ctx.choice('n', (127, 128, 255))
    last = list(ctx.bytes('last', 4))
    body = [1, 0, 0, 0] * n + last
    import infi.asi.cdb.diagnostic.ses_pages as m
    # the configuration page is decoded by the code under test, so that counts travel as they do in use
    conf = m.ConfigurationDiagnosticPagesData(None)
    raw = [1, 0, 0, 0, 0, 0, 0, 1, 0x11, 0, 1, 36] + [0] * 8 + list(b'VENDOR01' + b'PRODUCT_NAME_123' + b'r1.2') + \
        [0x17, n, 0, 0]
    raw[3] = len(raw) - 4
    conf.unpack(bytes(raw))
    r, c = one_command(ctx, lambda: m.EnclosureStatusDiagnosticPagesCommand(conf),
                       bytes([2, 0] + be(4 + len(body), 2) + [0, 0, 0, 1] + body))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    e = r.value.status_descriptors[0].individual_elements
    ctx.check(len(e) == n, 'one element status per possible element')
    if len(e) == n:
        check_common(ctx, e[-1], last)
        ctx.check(e[-1].status_info.ok == bits(last[1], 7, 7), 'OK')


@harness('ses-status', reach=('status', 'descriptors'), quick=dict(seconds=150),
         bounds='two pages of two enclosures (0..2 elements each, one type of two), made before either is decoded, in both orders, '
         'and one of them decoded again')
def ses_two_pages(ctx):
    """a page is decoded with the configuration it was made with, however many others there are"""
    import infi.asi.cdb.diagnostic.ses_pages as m
    status = ctx.choice('page', ('status', 'descriptors')) == 'status'
    code = 2 if status else 7
    cls = m.get_ses_page_data(code)
    pages, raws, parts = [], [], []
    for i in range(2):
        n = ctx.pick('count%d' % i, 0, 2)
        t = ctx.choice('type%d' % i, (0x01, 0x03))
        if status:
            part = [list(ctx.bytes('e%d_%d' % (i, k), 4)) for k in range(n + 1)]
        else:
            part = [[0, 0, 0, 1] + list(ctx.bytes('e%d_%d' % (i, k), 1)) for k in range(n + 1)]
        body = [b for e in part for b in e]
        raws.append(bytes([code, 0] + be(4 + len(body), 2) + [0, 0, 0, i] + body))
        parts.append((t, part))
        pages.append(cls(conf_page=ConfPage([(t, n)])))
    for i in ctx.choice('order', ((0, 1), (1, 0), (0, 1, 0))):
        pages[i].unpack(raws[i])
    ctx.reach('status' if status else 'descriptors')
    for i, (page, (t, part)) in enumerate(zip(pages, parts)):
        ctx.check(page.generation_code == i, 'generation code')
        lists = page.status_descriptors if status else page.element_descriptors
        ctx.check(len(lists) == 1, 'one list per element type')
        ctx.check(len(lists[0].individual_elements) == len(part) - 1, 'one element per possible element')
        for e, raw in zip(lists[0].individual_elements, part[1:]):
            if not status:
                ctx.eq(e.descriptor, raw[4:], 'descriptor text')
                continue
            check_common(ctx, e, raw)
            if t == 1:
                ctx.check(e.status_info.slot_address == raw[1], 'slot address')
            else:
                ctx.check(e.status_info.speed_code == bits(raw[3], 2, 0), 'speed code')


# ------------------------------------------------------------------------------------------------ element descriptors
@harness('ses-status', reach=('decoded',), quick=dict(seconds=200), thorough=dict(seconds=500),
         bounds='0..2 element types (3 thorough) with 0..2 elements each, descriptor texts of 0..2 bytes')
def ses_descriptors(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    head = list(ctx.bytes('head', 8))
    headers, parts = [], []
    k = 0
    for i in range(ctx.pick('types', 0, 3 if ctx.thorough else 2)):
        n = ctx.pick('count%d' % i, 0, 2)
        headers.append((1, n))
        group = []
        for j in range(n + 1):
            ln = ctx.choice('len%d' % k, (0, 2))
            group.append(list(ctx.bytes('d%d' % k, 2)) + be(ln, 2) + list(ctx.bytes('t%d' % k, ln)))
            k += 1
        parts.append(group)
    body = [b for g in parts for d in g for b in d]
    head[2:4] = be(4 + len(body), 2)
    conf = ConfPage(headers)
    r, c = one_command(ctx, lambda: m.ElementDescriptorDiagnosticPagesCommand(conf),
                       bytes(head + body + [0] * ctx.choice('slack', (0, 4))))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    v = r.value
    ctx.check(v.page_code == head[0], 'page code')
    ctx.check(v.page_length == num(head, 2, 2), 'page length')
    ctx.check(v.generation_code == num(head, 4, 4), 'generation code')
    ctx.check(len(v.element_descriptors) == len(headers), 'one list of descriptors per element type')
    for d, g in zip(v.element_descriptors, parts):
        ctx.check(d.overall_element.descriptor_length == len(g[0]) - 4, 'descriptor length')
        ctx.eq(d.overall_element.descriptor, g[0][4:], 'overall descriptor')
        ctx.check(len(d.individual_elements) == len(g) - 1, 'one descriptor per possible element')
        for e, raw in zip(d.individual_elements, g[1:]):
            ctx.eq(e.descriptor, raw[4:], 'descriptor text')


@harness('ses-status', reach=('decoded',), quick=dict(seconds=200),
         bounds='one descriptor text of 127, 128, 255, 256 or 33000 bytes, ends symbolic')
def ses_descriptors_long(ctx):
    import infi.asi.cdb.diagnostic.ses_pages as m
    n = ctx.choice('n', (127, 128, 255, 256, 33000))
    ends = list(ctx.bytes('ends', 4))
    t = ends[:2] + [0x20] * (n - 4) + ends[2:]
    after = list(ctx.bytes('after', 3))
    body = [0, 0, 0, 0] + [0, 0] + be(n, 2) + t + [0, 0, 0, 3] + after
    conf = ConfPage([(1, 2)])
    r, c = one_command(ctx, lambda: m.ElementDescriptorDiagnosticPagesCommand(conf),
                       bytes([7, 0] + be(4 + len(body), 2) + [0, 0, 0, 1] + body))
    ctx.check(r.ok, 'a full page is decoded')
    if not r.ok:
        return
    ctx.reach('decoded')
    ctx.check(r.value.page_length == 4 + len(body), 'page length')
    e = r.value.element_descriptors[0].individual_elements
    ctx.check(len(e) == 2, 'one descriptor per possible element')
    ctx.eq(e[0].descriptor, t, 'long descriptor')
    ctx.eq(e[1].descriptor, after, 'the descriptor after it')
