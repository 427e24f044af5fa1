"""The properties: id, name used by the harnesses, what is claimed. `python3 props.py` writes properties.jsonl and
MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CDB = 'src/infi/asi/cdb/'

PROPS = []


def prop(pid, slug, title, statement, over, text, why, files, mechanism, observe, note, state=(), na=None):
    PROPS.append(dict(pid=pid, slug=slug, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, observe=observe, note=note, state=state, na=na))


prop('P01', 'rw-cdb', 'READ and WRITE commands address exactly the blocks the caller named',
     'For READ and WRITE of 6, 10, 12 and 16 bytes, the command descriptor block sent to the device has the operation code, '
     'logical block address, transfer length, protection, DPO, FUA, FUA_NV and group number bits exactly where SBC-3 puts '
     'them. A read expects block count times block size bytes (256 blocks for a count of zero in the 6-byte form) and '
     'returns the data unchanged. A write sends the caller\'s buffer unchanged with the block count that the buffer holds.',
     ['inputs'], 'every logical block address, block count, flag and group number that fits the command; block sizes 512 to '
     '4096; every buffer',
     'No test builds READ or WRITE commands; the tests/*_example.py scripts need a real device and use one address.',
     [CDB + 'read.py', CDB + 'write.py'], [('READ commands', CDB + 'read.py'), ('WRITE commands', CDB + 'write.py')],
     ['the command handed to the executer', 'the value the command returns'],
     'all field values symbolic; write buffers symbolic in length up to 1 MiB and in content up to 4 blocks of 4 bytes')

prop('P02', 'rw-args', 'READ and WRITE never send a command that differs from the arguments',
     'Given any integer arguments, a READ or WRITE command either is refused with an error before anything is sent, or the '
     'command sent carries exactly the logical block address, block count and flags that were given. No argument is ever '
     'truncated or wrapped into another block range.',
     ['inputs'], 'every integer address and count, negative and too large ones included, for each command size',
     'Needs every out-of-range integer; the tests build none of these commands.',
     [CDB + 'read.py', CDB + 'write.py', CDB + '__init__.py'], [('field packing', CDB + 'read.py'), ('field packing', CDB + 'write.py')],
     ['the command handed to the executer'], 'arguments from -4x to +4x the range of the field')

prop('P03', 'write-same-caw', 'WRITE SAME and COMPARE AND WRITE carry the blocks they were given',
     'WRITE SAME (10 and 16) and COMPARE AND WRITE send the operation code, address, block count, group number and flags '
     '(anchor, unmap, protection, DPO, FUA) they were given where SBC-3 puts them, and the buffer unchanged. A buffer '
     'that is not a whole number of blocks, or an argument that does not fit, is refused and nothing is sent.',
     ['inputs'], 'every argument value in and out of range, every buffer length',
     'The only uses are example scripts for a real device.',
     [CDB + 'write_same.py', CDB + 'compare_and_write.py'],
     [('WRITE SAME', CDB + 'write_same.py'), ('COMPARE AND WRITE', CDB + 'compare_and_write.py')],
     ['the command handed to the executer'], 'all arguments symbolic; buffer lengths symbolic')

prop('P04', 'unmap', 'UNMAP lists exactly the ranges it was given',
     'The UNMAP parameter list has one block descriptor per range given, in order, with its exact address and count, and the '
     'lengths in its header and in the command descriptor block describe that list. Ranges that do not fit their fields are '
     'refused, and ranges of one command never appear in another.',
     ['inputs', 'histories'], 'every list of up to 8 ranges with every address and count',
     'No test covers UNMAP.', [CDB + 'unmap.py'], [('parameter list', CDB + 'unmap.py')],
     ['the command and data handed to the executer'], 'lists of 0 to 4 ranges (8 thorough), two commands in a row')

prop('P05', 'read-capacity', 'READ CAPACITY reports the capacity the device returned',
     'READ CAPACITY (10) and (16) send the address and PMI they were given, and decode the last block address, block length, '
     'protection, provisioning and alignment fields from any response exactly as SBC-3 lays them out. A response too short to '
     'hold the capacity is an error, never a made-up capacity.',
     ['inputs'], 'every response of 0 to 40 bytes and every argument', 'No test decodes a capacity response.',
     [CDB + 'read_capacity.py'], [('response layouts', CDB + 'read_capacity.py')],
     ['the command handed to the executer', 'the decoded response'], 'every byte of the response symbolic')

prop('P06', 'inquiry-cdb', 'INQUIRY asks for the page it decodes',
     'Each INQUIRY command sends EVPD, page code and allocation length as given or refuses arguments that do not fit, and the '
     'expected response length equals the allocation length of the command. Looking a page up by its code gives the command '
     'and layout of that page, and raw bytes for every page without a known layout.',
     ['inputs'], 'every page code, EVPD bit and allocation length', 'Tests build a handful of pages.',
     [CDB + 'inquiry/__init__.py', CDB + 'inquiry/vpd_pages/__init__.py', CDB + 'inquiry/standard.py'],
     [('INQUIRY command', CDB + 'inquiry/__init__.py'), ('page table', CDB + 'inquiry/vpd_pages/__init__.py')],
     ['the command handed to the executer', 'the page lookup functions'], 'all arguments symbolic')

prop('P07', 'standard-inquiry', 'Standard INQUIRY data is decoded field by field as SPC-4 defines it',
     'For any standard INQUIRY response of at least 36 bytes every flag and number is that of its bits in the response, the '
     'vendor, product and revision texts are the fields without padding, and the extended part is decoded as far as the '
     'additional length reaches and no further. Responses shorter than 36 bytes are an error.',
     ['inputs'], 'every content of the header and of the extended part, additional lengths around each boundary',
     'Two captured responses are tested.', [CDB + 'inquiry/standard.py'], [('layout', CDB + 'inquiry/standard.py')],
     ['the decoded response'], 'header bytes symbolic; each text field symbolic in turn; representative additional lengths')

prop('P08', 'vpd-pages', 'Vital product data pages are decoded as the device sent them',
     'For every supported vital product data page (supported pages, serial number, block limits, '
     'logical block provisioning, ATA information, Veritas and unknown pages), every decoded field equals '
     'the bits the standard assigns to it, for any content. Nothing beyond the page length is decoded as part of the page, and '
     'a response without a mandatory field is an error.',
     ['inputs'], 'every content of the pages; list and text lengths within the bounds',
     'One or two captured samples exist for three of the pages.',
     [CDB + 'inquiry/vpd_pages/'], [('page layouts', CDB + 'inquiry/vpd_pages/')], ['the decoded page'],
     'every byte of fixed layouts symbolic; variable parts to the lengths listed in the evidence')

prop('P09', 'designators', 'Device identification lists every designator, unaltered and in order',
     'For any well-formed device identification page every designator (T10 vendor, EUI-64 in its three forms, NAA 2, 3, 5 and '
     '6, relative and group ids, MD5, SCSI name, vendor specific and reserved) is decoded with the fields of the standard, '
     'and the next designator is found where it starts. A designator of an unknown kind is never reported as another kind, and '
     'a designator that is packed holds the values put in.',
     ['inputs'], 'every content of each kind of designator, lists of mixed kinds',
     'A few captured designators are tested.',
     [CDB + 'inquiry/vpd_pages/device_identification.py', CDB + 'inquiry/vpd_pages/designators.py'],
     [('designator selection', CDB + 'inquiry/vpd_pages/designators.py')], ['the decoded page', 'packed bytes'],
     'each kind with all its bytes symbolic followed by a second designator; mixed lists of up to 3')

prop('P10', 'report-luns', 'REPORT LUNS yields exactly the units the device reported',
     'REPORT LUNS sends the select-report code and allocation length given, and its result lists every logical unit in the '
     'response, in order, with its exact number; no unit is dropped or made up. A unit in an addressing format that is not '
     'supported is an error rather than some other unit.',
     ['inputs'], 'every 64-bit entry, every list length and truncation within the bounds', 'Tests use fixed responses.',
     [CDB + 'report_luns.py'], [('LUN list', CDB + 'report_luns.py')], ['the command handed to the executer', 'the decoded list'],
     'lists of 0 to 4 (8 thorough) entries of 64 symbolic bits, truncated responses')

prop('P11', 'rtpg', 'REPORT TARGET PORT GROUPS reports every group and its state',
     'REPORT TARGET PORT GROUPS sends the format and allocation length given, and each group in the response is decoded with '
     'its access state, preferred bit, supported-state bits, status code and every relative target port, in order, with '
     'normal and extended headers.',
     ['inputs'], 'every content of responses with up to 3 groups and several ports, large port counts included',
     'No test covers this command.', [CDB + 'rtpg.py'], [('response layout', CDB + 'rtpg.py')],
     ['the command handed to the executer', 'the decoded response'], 'up to 2 groups of 0 to 3 ports, one of 130 or 255 ports')

prop('P12', 'reserve-release', 'RESERVE and RELEASE name the initiator they were given',
     'RESERVE and RELEASE (6 and 10) send the command of SPC-2; a third-party device id is carried in the command when it '
     'fits a byte and as eight bytes of parameter data with the long-id bit otherwise. An id that fits neither is refused.',
     ['inputs'], 'every device id', 'Tests use a few ids.', [CDB + 'reserve.py', CDB + 'release.py'],
     [('RESERVE', CDB + 'reserve.py'), ('RELEASE', CDB + 'release.py')], ['the command and data handed to the executer'],
     'ids from below zero to above 64 bits')

prop('P13', 'simple-commands', 'TEST UNIT READY, LOG SENSE and RECEIVE COPY PARAMETERS are exact',
     'TEST UNIT READY, LOG SENSE and RECEIVE COPY OPERATING PARAMETERS send exactly their arguments or refuse those that do '
     'not fit, and expect as many bytes as they ask for. LOG SENSE returns the log page unchanged and every field of the copy '
     'operating parameters is that of the response, with the list of implemented descriptors as long as the device says.',
     ['inputs'], 'every argument and every response within the bounds', 'One captured response is tested.',
     [CDB + 'tur.py', CDB + 'log_sense.py', CDB + 'receive_copy_operating_parameters.py'],
     [('commands', CDB)], ['the command handed to the executer', 'the decoded response'],
     'all arguments symbolic; responses of up to 50 bytes symbolic')

prop('P14', 'persistent-reserve-out', 'PERSISTENT RESERVE OUT asks for exactly the action given',
     'PERSISTENT RESERVE OUT sends the service action, scope, type, both keys and the APTPL, ALL_TG_PT and SPEC_I_PT bits '
     'exactly as given, in the command and its parameter list, or refuses values that do not fit. Keys are never truncated or '
     'exchanged.', ['inputs'], 'every key of 64 bits, every service action, scope, type and flag', 'Tests use a few constant keys.',
     [CDB + 'persist/output.py'], [('parameter list', CDB + 'persist/output.py')], ['the command and data handed to the executer'],
     'all arguments symbolic')

prop('P15', 'persistent-reserve-in', 'PERSISTENT RESERVE IN reports the keys and holders the device has',
     'READ KEYS, READ RESERVATION, REPORT CAPABILITIES and READ FULL STATUS send the service action and allocation length '
     'given and decode every key, reservation, capability bit and full status descriptor exactly as the device sent it. A '
     'response that was cut short is never passed off as the whole list, and the allocation length that would hold everything '
     'is told.', ['inputs'], 'every response content within the bounds, every truncation',
     'Tests use captured responses of one or two entries.', [CDB + 'persist/input.py'],
     [('response layouts', CDB + 'persist/input.py')], ['the command handed to the executer', 'the decoded response'],
     'responses of up to 26 bytes, up to 3 keys and 2 full status descriptors, every byte symbolic')

prop('P16', 'ses-cdb', 'RECEIVE DIAGNOSTIC RESULTS asks for the page it decodes',
     'Each diagnostic page command sends the page code and allocation length as given or refuses what does not fit, with an '
     'expected length equal to the allocation length. Looking a page up by its code gives the command and layout of that page, '
     'and raw bytes for every other page.', ['inputs'], 'every page code and allocation length', 'Tests use the known pages once.',
     [CDB + 'diagnostic/__init__.py', CDB + 'diagnostic/ses_pages/__init__.py'],
     [('page table', CDB + 'diagnostic/ses_pages/__init__.py')], ['the command handed to the executer', 'the page lookup functions'],
     'all arguments symbolic')

prop('P17', 'ses-pages', 'Enclosure configuration and descriptor pages are decoded completely',
     'The configuration, element descriptor, supported, vendor specific and unknown diagnostic pages are decoded with every '
     'enclosure, element type, element and text, in order, each number equal to the bytes of the page. Counts and lengths of '
     'up to their full range are honoured, and bytes after the page are not part of it.',
     ['inputs'], 'every content of pages with up to 3 enclosures, several element types and texts', 'One captured enclosure is tested.',
     [CDB + 'diagnostic/ses_pages/'], [('page layouts', CDB + 'diagnostic/ses_pages/')], ['the decoded page'],
     'up to 2 enclosures (3 thorough) with symbolic headers; long lists with concrete contents',
     )

prop('P18', 'ses-status', 'Enclosure status is that of the element it is reported for',
     'In the enclosure status page each element type of the configuration gets its overall status and one status per possible '
     'element, in order, and every status bit, speed, temperature, voltage, current and address field of each element type '
     'equals the bits SES-2 assigns to it.', ['inputs', 'configurations'],
     'every element type, every status word, configurations within the bounds', 'One captured enclosure is tested.',
     [CDB + 'diagnostic/ses_pages/enclosure_status.py'], [('element status layouts', CDB + 'diagnostic/ses_pages/')],
     ['the decoded page'], 'every element type 0 to 255 with three symbolic status words; mixed configurations')

prop('P19', 'sense-decode', 'A check condition carries the decoded sense data and its raw bytes',
     'For any sense data that comes with CHECK CONDITION the caller gets a check condition error with the raw bytes; when '
     'they are in fixed or descriptor format, sense key, information, additional sense and every descriptor are decoded as '
     'SPC-4 lays them out. Sense data that cannot be decoded is still reported as a check condition.',
     ['inputs', 'fault_sequences'], 'every content of fixed and descriptor sense data, and arbitrary bytes',
     'Two captured sense buffers are tested.', ['src/infi/asi/sense/__init__.py', 'src/infi/asi/__init__.py'],
     [('sense layouts', 'src/infi/asi/sense/__init__.py')], ['the error raised by a command'],
     'all bytes symbolic for fixed format; descriptor format of up to 2 (3 thorough) descriptors; arbitrary buffers')

prop('P20', 'sense-asc', 'Additional sense codes have the names of the T10 list',
     'For every additional sense code and qualifier the decoded error has that code and qualifier and, when the T10 list '
     'assigns a name, that name, ranges of qualifiers included; a code without a name is not given one of another.',
     ['inputs'], 'all 65536 pairs', 'A few codes are tested.', ['src/infi/asi/sense/asc.py', 'src/infi/asi/sense/__init__.py'],
     [('code table', 'src/infi/asi/sense/asc.py')], ['the decoded sense data'], 'both bytes symbolic, complete')

prop('P21', 'linux', 'On Linux a command reaches the device intact and its outcome the caller',
     'On Linux, through sg devices and through the SG_IO ioctl, each command reaches the driver with its exact descriptor '
     'block, direction, data, length and timeout, and the device\'s data is returned unaltered. Any SCSI, host or driver status '
     'other than success, and any failure of the system call, is an error of the right kind (check condition with its sense '
     'bytes, reservation conflict, others) and never success. What happened to one command does not influence the next.',
     ['inputs', 'fault_sequences', 'histories'], 'every command content, every status byte, every host or driver status, two commands in a row',
     'One test exercises three error codes with a mock.', ['src/infi/asi/linux.py', 'src/infi/asi/unix.py', 'src/infi/asi/__init__.py'],
     [('control block and response', 'src/infi/asi/linux.py')], ['the control block at write/ioctl', 'result or error of the call'],
     'memory model of ctypes (LP64); transfers of up to 9 bytes (64 thorough); the driver is a stand-in written from sg.h')

prop('P22', 'solaris-aix', 'On Solaris and AIX commands and outcomes pass unaltered',
     'On Solaris and AIX each command reaches the driver with its exact descriptor block, direction, data, length and '
     'timeout, and the device\'s data is returned unaltered. Any SCSI, request sense or adapter status other than success, and any '
     'failure of the system call, is an error of the right kind and never success, and does not influence the next command.',
     ['inputs', 'fault_sequences', 'histories'], 'every command content, every status byte and validity, two commands in a row',
     'No test runs these platforms.', ['src/infi/asi/solaris.py', 'src/infi/asi/aix.py', 'src/infi/asi/__init__.py'],
     [('control blocks', 'src/infi/asi/solaris.py'), ('control blocks', 'src/infi/asi/aix.py')],
     ['the control block at the ioctl', 'result or error of the call'],
     'memory model of ctypes (LP64, little-endian); drivers are stand-ins written from the header files')

prop('P23', 'windows', 'On Windows commands and outcomes pass unaltered',
     'On Windows each command reaches the driver with its exact descriptor block, direction, data and length, and as many bytes '
     'as were transferred are returned unaltered. Any SCSI status other than GOOD and any failed call is an error with its '
     'sense bytes or error code, and does not influence the next command. Device handles are opened for the path given and '
     'closed exactly once.', ['inputs', 'fault_sequences', 'histories'],
     'every command content, status byte and error code; every shorter transfer', 'No test runs this platform.',
     ['src/infi/asi/win32.py'], [('control block', 'src/infi/asi/win32.py')], ['the control block at the ioctl', 'result or error of the call'],
     'memory model of ctypes (x64); kernel32 is a stand-in')

prop('P24', 'windows-async', 'Concurrent commands complete with their own results in any order',
     'When several commands run concurrently under the reactor, each gets the result or failure of its own operation, and the '
     'results are returned in the order of the commands, in whatever order the operations complete and whether they complete '
     'at once or later. A failed operation or wait is never taken for success, and no event outlives its operation.',
     ['schedules', 'inputs', 'fault_sequences'], 'every order of completion of up to 4 concurrent operations, each pending, immediate, failing or refused',
     'Needs Windows and real devices; one example script exists.', ['src/infi/asi/win32.py', 'src/infi/asi/coroutines/sync_adapter.py'],
     [('reactor', 'src/infi/asi/win32.py')], ['results of the concurrent commands'], 'up to 4 coroutines or 3 of up to 2 operations each')

prop('P25', 'command-queue', 'Every queued command is answered once, with its own answer',
     'For any history of sending, calling and waiting, and any order in which the device answers, each command sent is '
     'answered exactly once with its own data or error, commands in flight never share an id and never exceed the size of the '
     'queue, and a command beyond that is refused with the queue-full error. A command that could not be sent leaves nothing '
     'behind, waiting drains the queue, and an answer that belongs to no command is an internal error that disturbs no other.',
     ['histories', 'schedules', 'fault_sequences'], 'every history within the bounds, every order of answers, every id in an answer',
     'Tests never have two commands in flight.', ['src/infi/asi/__init__.py', 'src/infi/asi/linux.py'],
     [('pending commands', 'src/infi/asi/__init__.py')], ['callbacks, results, what reaches the device'],
     'queues of 1 to 3 with up to 5 operations (6 thorough), the default queue filled twice, 3 in flight through sg',
     state=[('pending commands', 'commands sent and not answered yet, by id', 'src/infi/asi/__init__.py')])

prop('P26', 'coroutines', 'Coroutines run with the meaning of plain calls',
     'Running a coroutine that waits for other coroutines, values and asynchronous operations gives each its value once and in '
     'order, exactly as if they were plain calls. An exception is raised in the coroutine that waits, nowhere else, and only '
     'an exception that nobody handles reaches the caller.', ['programs', 'inputs'],
     'every program of nested coroutines within the bounds, every value', 'Two programs without exceptions are tested.',
     ['src/infi/asi/coroutines/sync_adapter.py'], [('driver', 'src/infi/asi/coroutines/sync_adapter.py')],
     ['the result of the outermost coroutine', 'what each coroutine receives'], 'nesting to depth 3, up to 3 statements each')

prop('P27', 'platforms', 'Devices are opened, used and closed properly on every platform',
     'On each platform a device is opened for reading and writing without side effects and used through the executer of that '
     'platform with the timeout given, and other platforms are refused. The context managers close the device exactly once '
     'whatever happens inside and hide no error. Reading an answer waits until it is there, gives up with an error only after '
     'the timeout, and lets other greenlets run.',
     ['configurations', 'inputs', 'fault_sequences'], 'every platform, exit of the context, errno, time at which an answer arrives',
     'Tests open no device.', ['src/infi/asi/__init__.py', 'src/infi/asi/executers.py', 'src/infi/asi/unix.py'],
     [('context managers', 'src/infi/asi/executers.py'), ('read', 'src/infi/asi/unix.py')], ['system calls made'],
     'time in whole seconds, up to 7 polls (12 thorough)')

prop('P28', 'independent-commands', 'Commands are independent of one another and execute as one SCSI command each',
     'What is set in one command object - its CONTROL byte, its arguments - is carried by its own CDB and by no other command, '
     'made before or after, of its class or another. Each execution issues exactly one SCSI command, the same one every time, and '
     'an error of the executer, whatever it is, reaches the caller as it is; the command can then be executed again.',
     ['inputs', 'histories', 'fault_sequences'], 'every pair of command classes, CONTROL byte, arguments and sequence of failures',
     'Tests make one command of a class and never set its CONTROL byte or execute it twice.',
     ['src/infi/asi/cdb/__init__.py', 'src/infi/asi/cdb/control.py', 'src/infi/asi/cdb/read.py', 'src/infi/asi/cdb/reserve.py'],
     [('default CONTROL', 'src/infi/asi/cdb/control.py'), ('execute', 'src/infi/asi/cdb/read.py')],
     ['commands handed to the executer'],
     '32 command classes; arguments over the range of their fields; up to 3 failing executions')

prop('P29', 'error-text', 'Errors name the status that was reported and no other',
     'When a command fails with a status that has no error type of its own, the text of the error tells every SCSI, host, driver, adapter, validity, request sense or reason status '
     'that stands for the failure, and the number of an invalid field or system error, by number and by the name the header files '
     'give that number. A status is never given the name of another, and one without a name is not given one.',
     ['inputs', 'fault_sequences'], 'every value of every status on Linux, Solaris, AIX and Windows',
     'One test checks the types of three errors and no text.',
     ['src/infi/asi/linux.py', 'src/infi/asi/solaris.py', 'src/infi/asi/aix.py', 'src/infi/asi/win32.py', 'src/infi/asi/__init__.py'],
     [('status names', 'src/infi/asi/linux.py'), ('status names', 'src/infi/asi/aix.py')], ['the text of the error that is raised'],
     'one status symbolic over its whole range, the others from a few values; names and numbers, not wording')
prop('P30', 'code-names', 'Codes in decoded responses have the names the standards give them',
     'The tables of the library name the peripheral device type and version of standard INQUIRY data, the pages that a device '
     'supports (by its type where the page depends on it), the code set, association and type of designators, and the type, status '
     'and fan speed of enclosure elements: looked up with what was decoded from the response, a code has the name the standard '
     'gives it. A code without a name is not given the name of another, and a reserved designator type is named by its own number, whatever '
     'was looked up before.',
     ['inputs', 'histories'], 'every value of each code, and every pair of designator types',
     'No test looks a name up.',
     ['src/infi/asi/cdb/inquiry/vpd_pages/__init__.py', 'src/infi/asi/cdb/diagnostic/ses_pages/configuration.py',
      'src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py', 'src/infi/asi/cdb/inquiry/standard.py'],
     [('name tables', 'src/infi/asi/cdb/inquiry/vpd_pages/__init__.py'),
      ('element names', 'src/infi/asi/cdb/diagnostic/ses_pages/configuration.py')], ['what a lookup with the decoded code gives'],
     'one code symbolic over its whole range at a time; names compared without regard to case')

NOT_APPLICABLE = [
    ('P90', 'greenlets',
     'Several greenlets can share one executer without losing an answer',
     'When several greenlets make blocking calls on one executer under gevent, each gets its own answer as soon as it is there.',
     ['schedules'], 'every interleaving of the greenlets', 'The tests never share an executer.',
     ['src/infi/asi/__init__.py', 'src/infi/asi/unix.py'],
     'the interleavings are made by gevent\'s event loop (C code, not installed here) and its monkey patching of select and '
     'time; encoding them would decide properties of a model of gevent, not of this code'),
    ('P91', 'real-drivers',
     'The operating system honours the control blocks it is given',
     'The sg, uscsi, DK_PASSTHRU and pass-through drivers perform the commands they are given and report their true outcome.',
     ['inputs', 'fault_sequences'], 'every command and device', 'Needs the devices and systems.',
     ['src/infi/asi/linux.py', 'src/infi/asi/solaris.py', 'src/infi/asi/aix.py', 'src/infi/asi/win32.py'],
     'kernel code outside this repository; the checks of P21 to P24 assume it behaves as the header files say'),
]

TECHNIQUE = 'symbolic execution of the real code, SMT (z3) decides each obligation; counterexamples replayed under PyPy'


def slug_of(pid):
    for p in PROPS:
        if p['pid'] == pid or p['slug'] == pid:
            return p['slug']
    return pid


def id_of(slug):
    for p in PROPS:
        if p['slug'] == slug or p['pid'] == slug:
            return p['pid']
    return slug


def records():
    for p in PROPS:
        yield {'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'],
                           'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                           'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                           'observe_at': p['observe'], 'hook_needed': None}}
    for pid, slug, title, statement, over, text, why, files, reason in NOT_APPLICABLE:
        yield {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': 'outside this code', 'where': files[0]}]}}


def manifest():
    return {
        'version': 1,
        'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())" && /opt/venv/bin/python --version',
        'checks': [{
            'property': p['pid'],
            'quick_cmd': 'python3-vt run_check.py %s quick' % p['pid'],
            'thorough_cmd': 'python3-vt run_check.py %s thorough' % p['pid'],
            'technique': TECHNIQUE, 'level': 'model_checking',
            'level_note': 'bounded: ' + p['note'] + '; trusts z3 and the symbolic engine in symex/, whose paths are validated '
            'on every run against the real code'} for p in PROPS],
        'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in NOT_APPLICABLE],
        'notes': 'bounds of each harness are in evidence/<id>.json under coverage.bounds',
    }


if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fd:
        for r in records():
            fd.write(json.dumps(r) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fd:
        json.dump(manifest(), fd, indent=1)
        fd.write('\n')
