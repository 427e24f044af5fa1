#!/usr/bin/env python3
"""Mutation survey (development aid, no check uses it): small changes to the code, those that the stable tests let pass are given
to the checks of the file's properties; prints which survive.

usage: mutate.py OUT.jsonl SEED PER_FILE WORKERS [substring of file]      run from a clone of /verif; repo copies in /tmp/mu*
"""
import ast, json, os, random, shutil, subprocess, sys, threading, time
OUT, SEED, PER_FILE, WORKERS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
SUB = sys.argv[5] if len(sys.argv) > 5 else ''
HERE = os.getcwd()
SRC = '/repo/src/infi/asi'
ROUTES = [
    ('cdb/read.py', 'P01 P02 P28'), ('cdb/write.py', 'P01 P02 P28'), ('cdb/write_same.py', 'P03 P02 P28'),
    ('cdb/compare_and_write.py', 'P03 P02 P28'), ('cdb/unmap.py', 'P04 P28'), ('cdb/read_capacity.py', 'P05 P28'),
    ('cdb/inquiry/vpd_pages/device_identification.py', 'P09 P06'), ('cdb/inquiry/vpd_pages/designators.py', 'P09'),
    ('cdb/inquiry/vpd_pages/', 'P06 P08'), ('cdb/inquiry/standard.py', 'P06 P07'), ('cdb/inquiry/__init__.py', 'P06 P07 P08'),
    ('cdb/report_luns.py', 'P10'), ('cdb/rtpg.py', 'P11'), ('cdb/reserve.py', 'P12 P28'), ('cdb/release.py', 'P12 P28'),
    ('cdb/tur.py', 'P13'), ('cdb/log_sense.py', 'P13'), ('cdb/receive_copy', 'P13'), ('cdb/persist/output.py', 'P14 P28'),
    ('cdb/persist/transport.py', 'P14'), ('cdb/persist/input.py', 'P15'), ('cdb/diagnostic/__init__.py', 'P16 P17'),
    ('ses_pages/__init__.py', 'P16 P17'), ('ses_pages/enclosure_status.py', 'P18'),
    ('ses_pages/element_descriptor.py', 'P18 P17'), ('ses_pages/', 'P17 P16 P18'),
    ('cdb/control.py', 'P28'), ('cdb/__init__.py', 'P28 P12'), ('cdb/operation_code.py', 'P28 P01 P06 P16 P10 P11 P13'),
    ('sense/asc.py', 'P20'), ('sense/', 'P19 P20'), ('linux.py', 'P21 P25'), ('solaris.py', 'P22'), ('aix.py', 'P22'),
    ('win32.py', 'P23 P24'), ('coroutines/', 'P26 P24'), ('unix.py', 'P27 P21'), ('executers.py', 'P27'),
    ('errors.py', 'P19 P21 P25'), ('__init__.py', 'P25 P27 P21 P19 P26'),
]


def candidates(path):
    src = open(path, newline='').read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', 'to_repr', '__safe_repr__', 'prettify_status'):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.Assert) and n.msg is not None:
            for c in ast.walk(n.msg):
                skip.add(id(c))
        if isinstance(n, ast.Raise) and n.exc is not None and isinstance(n.exc, ast.Call):
            for a in n.exc.args:
                for c in ast.walk(a):
                    skip.add(id(c))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'exception', 'format'):
            for c in ast.walk(n):
                skip.add(id(c))

    def add(node, text, kind, only=None):
        a, b = only or span(node)
        out.append((kind, node.lineno, a, b, text))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'const+1')
            if n.value > 0:
                add(n, str(n.value - 1), 'const-1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
                    ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}[type(n.ops[0])]
            add(n, ' ' + swap + ' ', 'compare', (span(n.left)[1], span(n.comparators[0])[0]))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, op, 'boolop', (span(n.values[0])[1], span(n.values[1])[0]))
        elif isinstance(n, ast.BinOp):
            swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '%', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&',
                    ast.LShift: '>>', ast.RShift: '<<'}.get(type(n.op))
            if swap and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, ' ' + swap + ' ', 'binop', (span(n.left)[1], span(n.right)[0]))
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            add(n.test, 'not (' + raw[a:b].decode() + ')', 'negate')
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            add(n, 'pass', 'drop')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)) and any(
                n in getattr(f, 'body', []) or n in getattr(f, 'orelse', []) or n in getattr(f, 'finalbody', [])
                for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.If, ast.While, ast.For, ast.Try, ast.ExceptHandler))):
            add(n, 'pass', 'drop')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return None', 'return')
        elif isinstance(n, ast.Attribute) and n.attr in ('UBInt8',):
            pass
        elif isinstance(n, ast.Name) and n.id in ('UBInt16', 'UBInt32', 'UBInt64', 'be_uint_field', 'be_int_field', 'uint_field',
                                                  'c_ubyte', 'c_ushort', 'c_uint', 'c_ulong', 'c_ulonglong', 'c_int'):
            add(n, {'UBInt16': 'ULInt16', 'UBInt32': 'ULInt32', 'UBInt64': 'ULInt64', 'be_uint_field': 'be_int_field',
                    'be_int_field': 'be_uint_field', 'uint_field': 'int_field', 'c_ubyte': 'c_byte', 'c_ushort': 'c_short',
                    'c_uint': 'c_int', 'c_ulong': 'c_uint', 'c_ulonglong': 'c_ulong', 'c_int': 'c_uint'}[n.id], 'type')
    for kind, ln, a, b, text in out:
        if raw[a:b].decode() != text and 'import' not in lines[ln - 1]:
            yield kind, ln, raw[:a] + text.encode() + raw[b:], lines[ln - 1].strip(), text


def route(f):
    for k, v in ROUTES:
        if f.startswith(k) or k in f and '/' in k:
            return v.split()
    return []


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ''


work = []
rnd = random.Random(SEED)
for root, _, fs in os.walk(SRC):
    for f in sorted(fs):
        p = os.path.join(root, f)
        rel = os.path.relpath(p, SRC)
        if f.endswith('.py') and SUB in rel and route(rel):
            cs = list(candidates(p))
            rnd.shuffle(cs)
            work += [(rel,) + c for c in cs[:PER_FILE]]
rnd.shuffle(work)
print(len(work), 'mutants', flush=True)
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
lock = threading.Lock()


def tests(d):
    x = d + '/junit.xml'
    env = {'PYTHONPATH': d + '/src', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}
    sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=100 --continue-on-collection-errors -o junit_family=xunit2 '
       '--junitxml=%s tests; python3 /opt/vp/results.py %s/o.json junit:%s' % (x, d, x), d, env, 200)
    try:
        return not set(stable) - set(json.load(open(d + '/o.json'))['passed'])
    except Exception:
        return False


def one(k):
    d = '/tmp/mu%d' % k
    if not os.path.exists(d):
        shutil.copytree('/repo', d, symlinks=True)
    while True:
        with lock:
            if not work:
                return
            rel, kind, ln, new, line, text = work.pop()
        p = d + '/src/infi/asi/' + rel
        old = open(p, 'rb').read()
        r = dict(file=rel, line=ln, kind=kind, src=line, to=text)
        try:
            try:
                compile(new, p, 'exec')
            except SyntaxError:
                continue
            open(p, 'wb').write(new)
            if not tests(d):
                r['result'] = 'tests'
            else:
                r['result'] = 'SURVIVED'
                r['rcs'] = {}
                for skip in ('beside', None):
                    for q in route(rel):
                        env = {'VERIF_REPO': d, 'VERIF_JOBS': '2'}
                        env.update({'VERIF_SKIP': skip} if skip else {'VERIF_ONLY': 'beside'})
                        rc, o = sh('python3-vt run_check.py %s quick' % q, HERE, env)
                        r['rcs'][q + ('' if skip else '+')] = rc
                        if rc == 1:
                            r['result'] = 'killed ' + q
                            break
                        if rc not in (0, 1) and 'no harness' not in o:
                            r['result'] = 'NOANSWER ' + q
                            r['tail'] = o[-1500:]
                    if not r['result'].startswith('SURV'):
                        break
        finally:
            open(p, 'wb').write(old)
        with lock:
            open(OUT, 'a').write(json.dumps(r) + '\n')


ts = [threading.Thread(target=one, args=(k,)) for k in range(WORKERS)]
[t.start() for t in ts]
[t.join() for t in ts]
