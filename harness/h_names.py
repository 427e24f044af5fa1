"""The tables that name what a decoded response holds, from the byte of the response to the name of the standard."""
from .api import harness
from .h_text import numbers

ELEMENT_TYPES = dict(enumerate((
    'Unspecified', 'Device Slot', 'Power Supply', 'Cooling', 'Temperature Sensor', 'Door', 'Audible Alarm',
    'Enclosure Services Controller Electronics', 'SCC Controller Electronics', 'Nonvolatile Cache', 'Invalid Operation Reason',
    'Uninterruptible Power Supply', 'Display', 'Key Pad Entry', 'Enclosure', 'SCSI Port/Transceiver', 'Language',
    'Communication Port', 'Voltage Sensor', 'Current Sensor', 'SCSI Target Port', 'SCSI Initiator Port', 'Simple Subenclosure',
    'Array Device Slot', 'SAS Expander', 'SAS Connector')))
ELEMENT_TYPES[0x9e] = 'Sanmina Specific Data'
ELEMENT_STATUS = dict(enumerate((
    'Unsupported', 'OK', 'Critical', 'Noncritical', 'Unrecoverable', 'Not Installed', 'Unknown', 'Not Available', 'No Access')))
SPEEDS = dict((i, 'Cooling mechanism is ' + n) for i, n in enumerate((
    'stopped', 'at its lowest speed', 'at its second lowest speed', 'at its third lowest speed', 'at its intermediate speed',
    'at its third highest speed', 'at its second highest speed', 'at its highest speed')))
DEVICE_TYPES = dict(enumerate((
    'disk', 'tape', 'printer', 'processor', 'write once optical disk', 'cd/dvd', 'scanner', 'optical memory device',
    'medium changer', 'communications', 'graphics [0xa]', 'graphics [0xb]', 'storage array controller',
    'enclosure services device', 'simplified direct access device', 'optical card reader/writer device',
    'bridge controller commands', 'object based storage', 'automation/driver interface', 'security manager device',
    'zoned block commands')))
DEVICE_TYPES.update((i, hex(i)) for i in range(0x15, 0x1e))
DEVICE_TYPES.update({0x1e: 'well known logical unit', 0x1f: 'no physical device on this lu'})
VERSIONS = {0: 'no conformance claimed', 1: 'SCSI-1', 2: 'SCSI-2', 3: 'SPC', 4: 'SPC-2', 5: 'SPC-3', 6: 'SPC-4', 7: 'SPC-5'}
PAGES = {
    0x00: 'Supported VPD pages', 0x80: 'Unit serial number', 0x81: 'Implemented operating definitions (obsolete)',
    0x82: 'ASCII implemented operating definition (obsolete)', 0x83: 'Device identification',
    0x84: 'Software interface identification', 0x85: 'Management network addresses', 0x86: 'Extended INQUIRY data',
    0x87: 'Mode page policy', 0x88: 'SCSI ports', 0x89: 'ATA information', 0x8a: 'Power condition',
    0x8b: 'Device constituents', 0x8c: 'CFA profile information', 0x8d: 'Power consumption', 0x8f: 'Third party copy',
    0x90: 'Protocol-specific logical unit information', 0x91: 'Protocol-specific port information',
    0x92: 'SCSI Feature sets', 0xc0: 'vendor: Firmware numbers (seagate); Unit path report (EMC)',
    0xc1: 'vendor: Date code (seagate)', 0xc2: 'vendor: Jumper settings (seagate); Software version (RDAC)',
    0xc3: 'vendor: Device behavior (seagate)', 0xc9: 'Volume Access Control (RDAC)'}
PAGES_BY_TYPE = {
    0xb0: {0x00: 'Block limits (sbc2)', 0x01: 'Sequential access device capabilities (ssc3)', 0x11: 'OSD information (osd)'},
    0xb1: {0x00: 'Block device characteristics (sbc3)', 0x11: 'Security token (osd)',
           0x0d: 'Enclosure services device characteristics (ses4)'},
    0xb2: {0x00: 'Logical block provisioning (sbc3)', 0x01: 'TapeAlert supported flags (ssc3)'},
    0xb3: {0x00: 'Referrals (sbc3)'}}
CODE_SETS = {1: 'Binary', 2: 'ASCII', 3: 'UTF8'}
DESIGNATORS = dict(enumerate((
    'vendor specific [0x0]', 'T10 vendor identification', 'EUI-64 based', 'NAA', 'Relative target port', 'Target port group',
    'Logical unit group', 'MD5 logical unit identifier', 'SCSI name string', 'Protocol specific port identifier',
    'UUID identifier')))
ASSOCIATIONS = {0: 'Addressed logical unit', 1: 'Target port', 2: 'Target device that contains addressed lu',
                3: 'Reserved [0x3]'}


def same(a, b):
    return isinstance(a, str) and a.strip().lower() == b.lower()


def named(ctx, got, value, table, what):
    """got is the name the standard gives the value; other values have none of these names"""
    for code, name in sorted(table.items()):
        if same(got, name):
            ctx.check(value == code, '%s: the name of the standard and no other' % what)
            ctx.reach('named')
        else:
            ctx.check(value != code, '%s: a code of the standard has its name' % what)
    if got is None:
        ctx.reach('unnamed')


@harness('code-names', reach=('named', 'unnamed', 'by type', 'reserved'), quick=dict(seconds=150),
         bounds='standard INQUIRY data with every first byte and version; page codes in supported pages data, every one, for every '
                'device type; designators with every code set, association and type')
def names_inquiry(ctx):
    from infi.asi.cdb.inquiry import vpd_pages as v
    from infi.asi.cdb.inquiry.standard import StandardInquiryDataBuffer
    what = ctx.choice('what', ('type', 'version', 'page', 'code set', 'designator', 'association'))
    ctx.track_text()
    b = list(ctx.bytes('b', 4))
    if what in ('type', 'version'):
        d = StandardInquiryDataBuffer()
        d.unpack(bytes(b + [31] + [0x20] * 31))
        if what == 'type':
            named(ctx, v.SCSI_PERIPHERAL_DEVICE_TYPE.get(d.peripheral_device.type), b[0] & 0x1f, DEVICE_TYPES, what)
            ctx.reach('unnamed')
        else:
            named(ctx, v.SCSI_VERSION_NAME.get(d.version), b[2], VERSIONS, what)
    elif what == 'page':
        d = v.get_vpd_page_data(0)()
        d.unpack(bytes([b[0], 0, 0, 1, b[3]]))
        got = v.SCSI_VPD_NAME.get(d.vpd_parameters[0])
        if isinstance(got, dict):
            ctx.reach('by type')
            name = got.get(d.peripheral_device.type)
            page = ctx.pick('which', 0xb0, 0xb3)
            ctx.assume(page == b[3])
            named(ctx, name, b[0] & 0x1f, PAGES_BY_TYPE[page], 'page by device type')
        else:
            ctx.check(ctx.Not(ctx.And(b[3] >= 0xb0, b[3] <= 0xb3)), 'page: these depend on the device type')
            named(ctx, got, b[3], PAGES, what)
    else:
        d = v.get_vpd_page_data(0x83)()
        kind = ctx.pick('kind', 0, 15) if what == 'designator' else 0
        d.unpack(bytes([0, 0x83, 0, 12, b[0], (b[1] & 0x30) | kind, 0, 8] + [0x30, 0, 0, 0, 0, 0, 0, 0]))
        x = d.designators_list[0]
        if what == 'code set':
            named(ctx, v.SCSI_CODE_SETS.get(x.code_set), b[0] & 0x0f, CODE_SETS, what)
        elif what == 'association':
            named(ctx, v.SCSI_DESIGNATOR_ASSOCIATIONS.get(x.association), (b[1] >> 4) & 3, ASSOCIATIONS, what)
            ctx.reach('unnamed')
        else:
            reserved(ctx, v.SCSI_DESIGNATOR_TYPES[x.designator_type], x.designator_type, kind)


def reserved(ctx, got, value, kind):
    named(ctx, got, kind, DESIGNATORS, 'designator')
    if kind > 10:
        ctx.reach('reserved')
        ctx.check('reserved' in got.lower(), 'designator: the other types are reserved')
        ctx.check(ctx.Or(*[n == kind for n in numbers(ctx, got)] + [False]), 'designator: which one')


@harness('code-names', reach=('named', 'reserved'), quick=dict(seconds=100),
         bounds='two designator types in a row, every pair of 0..15')
def names_designators(ctx):
    """what was looked up before makes no difference"""
    from infi.asi.cdb.inquiry import vpd_pages as v
    ctx.track_text()
    for i in range(2):
        kind = ctx.int('kind%d' % i, 0, 15)
        got = v.SCSI_DESIGNATOR_TYPES[kind]
        named(ctx, got, kind, DESIGNATORS, 'designator')
        if ctx.is_true(kind > 10):
            ctx.reach('reserved')
            ctx.check('reserved' in got.lower(), 'designator: the other types are reserved')
            ctx.check(ctx.Or(*[n == kind for n in numbers(ctx, got)] + [False]), 'designator: which one')


@harness('code-names', reach=('named', 'unnamed'), quick=dict(seconds=100),
         bounds='every element type, element status code and fan speed code of an enclosure with one element')
def names_enclosure(ctx):
    from infi.asi.cdb.diagnostic.ses_pages import get_ses_page_data
    from infi.asi.cdb.diagnostic.ses_pages import configuration as c, enclosure_status as s
    what = ctx.choice('what', ('type', 'status', 'speed'))
    kind = ctx.int('type', 0, 255) if what == 'type' else 3
    status = list(ctx.bytes('status', 4))
    conf = get_ses_page_data(1)(conf_page=None)
    conf.unpack(bytes([1, 0] + [0, 48, 0, 0, 0, 0] + [0, 0, 1, 36] + [0x41] * 36 + [kind, 1, 0, 0]))
    if what == 'type':
        named(ctx, c.ELEMENT_TYPE_CODES.get(conf.type_descriptor_header_list[0].element_type), kind, ELEMENT_TYPES, what)
        return
    d = get_ses_page_data(2)(conf_page=conf)
    d.unpack(bytes([2, 0, 0, 12, 0, 0, 0, 0] + [0, 0, 0, 0] + status))
    e = d.status_descriptors[0].individual_elements[0]
    if what == 'status':
        named(ctx, s.ELEMENT_STATUS_CODE.get(e.element_status_code), status[0] & 0x0f, ELEMENT_STATUS, what)
    else:
        named(ctx, s.FAN_SPEED_CODE.get(e.status_info.speed_code), status[3] & 7, SPEEDS, what)
