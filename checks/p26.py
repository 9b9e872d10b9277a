# -*- coding: utf-8 -*-
"""P26 results against the environment of a command.

Every execution is a process of its own.  What it writes is compared with what
the same command writes in the plain environment.
"""
import itertools
import json
import os
import pty
import shutil
import subprocess
import sys
import zipfile

from mc import hwp
from mc.core import Family, Violation, expect, expect_equal
from checks import p22

PROPERTY = 'P26'
LEVEL = 'exploration'
RULE = ('a case is one command on one document and one value of one part of '
        'its environment, with every value of another part; every execution '
        'is a process whose exit status, standard output and files are '
        'compared with those in the plain environment')
ASSUMPTIONS = ['standard output is not a terminal (there, the XML is shown '
               'with colours through a pager)',
               'standard output is UTF-8 (a terminal which is not gets its '
               'own encoding)',
               'time stamps inside zip packages are not compared']

# ---- environments: part -> {value: what it changes}

PARTS = [
    ('hash', dict((str(n), dict(env={'PYTHONHASHSEED': str(n)}))
                  for n in (1, 2, 3, 77))),
    ('locale', {
        'C': dict(env={'LC_ALL': 'C'}),
        'POSIX': dict(env={'LANG': 'POSIX'}),
        'none': dict(env={'LANG': None}),
        'missing': dict(env={'LANG': 'ko_KR.UTF-8'}),
        'korean': dict(env={'LANGUAGE': 'ko', 'LANG': 'ko_KR.UTF-8'}),
        'english': dict(env={'LANGUAGE': 'en', 'LC_MESSAGES': 'en_US.UTF-8'}),
    }),
    ('zone', dict((z, dict(env={'TZ': z})) for z in (
        'Asia/Seoul', 'XYZ+11:30', 'UTC', 'nonsense'))),
    ('level', dict([(v, dict(opts=['--loglevel=' + v])) for v in (
        'debug', 'INFO', 'critical', 'bogus')] + [
            ('env ' + v, dict(env={'PYHWP_LOGLEVEL': v})) for v in (
                'debug', 'Warning', 'bogus')])),
    ('logfile', {
        'option': dict(opts=['--logfile=the.log']),
        'env': dict(env={'PYHWP_LOGFILE': 'the.log'}),
        'option debug': dict(opts=['--logfile=the.log', '--loglevel=debug']),
    }),
    ('path', {
        'absolute': dict(path='{run}/F.hwp'),
        'dot': dict(path='./F.hwp'),
        'parent': dict(path='../run/F.hwp'),
        'slashes': dict(path='{run}//.//F.hwp'),
        'elsewhere': dict(path='{run}/F.hwp', cwd='a'),
        'spaces': dict(path="../a b'\"&<%s>/F.hwp", copy="a b'\"&<%s>"),
        'korean': dict(path='../\ud55c\uae00/F.hwp', copy='\ud55c\uae00'),
        'link': dict(path='../link/F.hwp', link='link'),
        'korean cwd': dict(path='{run}/F.hwp', cwd='\ud55c\uae00'),
    }),
    ('python', {
        '-O': dict(py=['-O']), '-OO': dict(py=['-OO']),
        'dev': dict(py=['-X', 'dev']), '-u': dict(py=['-u']),
        '-B -q': dict(py=['-B', '-q']),
        'utf8': dict(py=['-X', 'utf8']),
    }),
    ('output', {
        'file': dict(out='file'),
        'appended': dict(out='append'),
    }),
    ('input', {
        'closed': dict(stdin='closed'), 'pipe': dict(stdin='pipe'),
        'no stderr': dict(stderr='closed'),
        'stderr terminal': dict(stderr='pty'),
    }),
    ('terminal', {
        'narrow': dict(env={'COLUMNS': '10', 'LINES': '3'}),
        'dumb': dict(env={'TERM': 'dumb', 'PAGER': 'false'}),
        'colour': dict(env={'TERM': 'xterm-256color', 'CLICOLOR_FORCE': '1',
                            'FORCE_COLOR': '1'}),
    }),
    ('user', {
        'no home': dict(env={'HOME': None}),
        'umask 077': dict(umask=0o77),
        'umask 007': dict(umask=0o7),
        'other tmp': dict(env={'TMPDIR': '{run}/../tmp 2'}),
    }),
]
VALUES = dict(PARTS)

COMMANDS = list(p22.CLI) + [
    ('hwp5proc', ['find', '--tag=HWPTAG_PARA_TEXT', 'F', 'F']),
    ('hwp5proc', ['models', '--format=%(seqno)s %(type)s\\n', 'F',
                  'DocInfo']),
    ('hwp5proc', ['xml', '--no-xml-decl', 'F']),
    ('hwp5proc', ['records', '--range=0-3', 'F', 'bodytext/0']),
    ('hwp5proc', ['cat', '--vstreams', 'F', 'DocInfo.models']),
    ('hwp5proc', ['cat', '--vstreams', 'F', '\x05HwpSummaryInformation.txt']),
    ('hwp5proc', ['cat', '--vstreams', 'F', 'FileHeader.txt']),
    ('hwp5proc', ['cat', '--vstreams', 'F', 'BodyText/Section0.records']),
]
FEW = [('hwp5proc', ['summaryinfo', 'F']),
       ('hwp5proc', ['ls', '--vstreams', 'F']),
       ('hwp5proc', ['unpack', '--vstreams', 'F']),
       ('hwp5proc', ['models', 'F', 'DocInfo']),
       ('hwp5proc', ['find', '--dump', 'F']),
       ('hwp5proc', ['xml', 'F']), ('hwp5txt', ['F']),
       ('hwp5html', ['F']), ('hwp5odt', ['F'])]
# the document which is not one, and the one which ends in the middle
BROKEN = [('hwp5proc', ['version', 'F']), ('hwp5proc', ['ls', 'F']),
          ('hwp5proc', ['unpack', 'F']), ('hwp5proc', ['xml', 'F']),
          ('hwp5proc', ['summaryinfo', 'F']),
          ('hwp5proc', ['models', 'F', 'BodyText/Section0']),
          ('hwp5proc', ['find', 'F']), ('hwp5txt', ['F']),
          ('hwp5html', ['F']), ('hwp5odt', ['F'])]

RUN = ('import sys; sys.argv[0] = {0!r}; from hwp5.{0} import main; '
       'sys.exit(main())')
BASE = ('PATH', 'LANG', 'PYTHONPATH', 'PYTHONDONTWRITEBYTECODE')


def documents():
    info = hwp.docinfo(p22.V, bindata=[dict(flags=1, bindata={
        'storage_id': 1, 'ext': 'png'})], styles=[
            dict(local_name='\ubc14\ud0d5\uae00', name='Normal'),
            dict(local_name='L\u00e9<1>', name='')],
        charshapes=[dict(relative_size=dict((x, 100) for x in (
            'ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')))])
    from mc import doc
    secs = p22.nodes()
    secs.append(doc.para(['\ud55c\uae00 \u6f22\u5b57 \u00e9 \U00020000', 13]))
    section = doc.stream(secs, p22.V)
    out = {}
    for name, flags in ('compressed', 1), ('distributed', 5):
        t = p22.tree(flags, info=info, section=section)
        out[name] = t
    out['cut'] = p22.tree(0, info=info, section=section[:-30])
    return out


_DOCS = {}


def put(name, path):
    if not _DOCS:
        _DOCS.update(documents())
    if name == 'text':
        with open(path, 'wb') as f:
            f.write(b'this is not a document\n' * 99)
    else:
        hwp.write(path, _DOCS[name])


def merged(values):
    out = dict(env={}, opts=[], py=[])
    for v in values:
        for k, x in v.items():
            if k == 'env':
                out['env'].update(x)
            elif k in ('opts', 'py'):
                out[k] = out[k] + x
            else:
                out[k] = x
    return out


def execute(prog, args, docname, values=()):
    """-> (exit status, standard output, {file: content})"""
    w = merged(values)
    top = hwp.scratch('p26')
    shutil.rmtree(top, ignore_errors=True)
    run = os.path.join(top, 'run')
    os.makedirs(run)
    for d in 'a', 'tmp', 'tmp 2', 'home':
        os.mkdir(os.path.join(top, d))
    put(docname, os.path.join(run, 'F.hwp'))
    if 'copy' in w:
        os.mkdir(os.path.join(top, w['copy']))
        shutil.copy(os.path.join(run, 'F.hwp'), os.path.join(top, w['copy']))
    if 'link' in w:
        os.symlink('run', os.path.join(top, w['link']))
    cwd = run
    if 'cwd' in w:
        cwd = os.path.join(top, w['cwd'])
        os.makedirs(cwd, exist_ok=True)
    path = w.get('path', 'F.hwp').replace('{run}', run)
    stdin = b''
    argv = []
    for a in args:
        if a.startswith('<'):
            stdin = p22.STDIN[a[1:]]()
        elif a == 'F':
            argv.append(path)
        else:
            argv.append(a)
    argv = w['opts'] + argv
    before = listing(cwd)
    env = dict((k, os.environ[k]) for k in BASE if k in os.environ)
    env.update(PYTHONHASHSEED='0', HOME=os.path.join(top, 'home'),
               TMPDIR=os.path.join(top, 'tmp'), COLUMNS='80')
    for k, v in w['env'].items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v.replace('{run}', run)
    cmd = [sys.executable, '-W', 'ignore'] + w['py'] + [
        '-c', RUN.format(prog)] + argv
    code, out = spawn(cmd, cwd, env, stdin, w)
    files = listing(cwd)
    for n in before:
        expect(files.pop(n, None) == before[n],
               '%r changed the file %r' % (argv, n))
    files.pop('the.log', None)
    for d in 'tmp', 'tmp 2':
        expect_equal(os.listdir(os.path.join(top, d)), [],
                     'temporary files of %r' % argv)
    for p in path, json.dumps(path)[1:-1]:
        out = out.replace(os.fsencode(p), b'F.hwp')
    shutil.rmtree(top, ignore_errors=True)
    return code, out, files


def spawn(cmd, cwd, env, stdin, w):
    fds = []
    outpath = os.path.join(cwd, '..', 'stdout')
    kind = w.get('out')
    if kind in ('file', 'append'):
        with open(outpath, 'wb') as f:
            f.write(b'before' if kind == 'append' else b'')
        so = os.open(outpath, os.O_WRONLY | (
            os.O_APPEND if kind == 'append' else 0))
        fds.append(so)
    else:
        so = subprocess.PIPE
    m2 = None
    if w.get('stderr') == 'pty':
        m2, s2 = pty.openpty()
        fds.append(s2)
        se = s2
    else:
        se = subprocess.DEVNULL

    def child():
        if 'umask' in w:
            os.umask(w['umask'])
        if w.get('stdin') == 'closed':
            os.close(0)
        if w.get('stderr') == 'closed':
            os.close(2)
    closed = w.get('stdin') == 'closed'
    if closed and stdin:
        return None, b''
    si = subprocess.PIPE if stdin or w.get('stdin') == 'pipe' \
        else subprocess.DEVNULL
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=si, stdout=so,
                         stderr=se, preexec_fn=child)
    for fd in fds:
        os.close(fd)
    try:
        out, _ = p.communicate(stdin or None, timeout=100)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Violation('%r does not end' % cmd[4:])
    finally:
        if m2 is not None:
            os.close(m2)
    if kind in ('file', 'append'):
        with open(outpath, 'rb') as f:
            out = f.read()
        if kind == 'append':
            expect(out.startswith(b'before'), 'output overwrote the file')
            out = out[6:]
        os.remove(outpath)
    return p.returncode, out


def listing(root):
    out = {}
    for base, dirs, names in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), root)] = 'directory'
        for n in names:
            path = os.path.join(base, n)
            rel = os.path.relpath(path, root)
            if zipfile.is_zipfile(path):
                with zipfile.ZipFile(path) as z:
                    out[rel] = [(i.filename, z.read(i), i.compress_type)
                                for i in z.infolist()]
            else:
                with open(path, 'rb') as f:
                    out[rel] = f.read()
    return out


_BASE = {}


def plain(prog, args, docname):
    key = prog, tuple(args), docname
    if key not in _BASE:
        if len(_BASE) > 40:
            _BASE.clear()
        r = execute(prog, args, docname)
        expect(r[0] is not None and 0 <= r[0] < 120,
               '%r ends with status %r' % (args, r[0]))
        if docname in ('compressed', 'distributed'):
            expect_equal(r[0], 0, 'exit status of %s %r' % (prog, args))
        else:
            expect(r[0], '%s %r accepts %s' % (prog, args, docname))
        _BASE[key] = r
    return _BASE[key]


def cases(tier):
    """every value alone (quick: with few commands)"""
    for prog, args in COMMANDS:
        for docname in ('compressed', 'distributed'):
            if tier == 'quick' and ((prog, args) not in FEW or
                                    docname == 'distributed'):
                continue
            for part, values in PARTS:
                yield {'c': [prog, args], 'd': docname, 'of': part}
    for prog, args in BROKEN:
        for docname in ('text', 'cut'):
            if docname == 'cut' and args[:1] in (
                    ['version'], ['ls'], ['summaryinfo'], ['unpack']):
                continue
            for part, values in PARTS:
                if tier != 'quick' or part in ('locale', 'python', 'level',
                                               'input'):
                    yield {'c': [prog, args], 'd': docname, 'of': part}


def all_cases(tier):
    """environments in which every part differs: each value of each part
    with each command"""
    top = max(len(v) for _, v in PARTS)
    for k, (prog, args) in enumerate(COMMANDS):
        for docname in ('compressed', 'distributed'):
            if docname == 'distributed' and tier == 'quick':
                continue
            for step in (1,) if tier == 'quick' else (1, 2, 3, 5):
                for n in range(0, top, 3):
                    yield {'c': [prog, args], 'd': docname, 'n': [
                        j for j in range(n, n + 3) if j < top], 'k': k,
                        's': step}


def all_run(case):
    prog, args = case['c']
    want = plain(prog, args, case['d'])
    for n in case['n']:
        chosen = []
        for i, (part, values) in enumerate(PARTS):
            if part == 'input' and any(a[0] == '<' for a in args):
                continue
            keys = sorted(values)
            chosen.append((part, keys[(n + i * case['k'] * case['s']) %
                                      len(keys)]))
        got = execute(prog, args, case['d'],
                      [VALUES[p][v] for p, v in chosen])
        compare(got, want, prog, args, repr(chosen))
    return prog, args, case['d'], case['n'], sorted(want[2])


def pair_cases(tier):
    for prog, args in FEW if tier == 'quick' else COMMANDS:
        for (p1, v1), (p2, v2) in itertools.combinations(PARTS, 2):
            if tier == 'quick' and (p1, p2) not in QUICKPAIRS:
                continue
            for v in sorted(v1):
                yield {'c': [prog, args], 'd': 'compressed', 'of': p2,
                       'with': [p1, v]}


QUICKPAIRS = [('level', 'logfile'), ('python', 'output')]


def compare(got, want, prog, args, how):
    if got[0] is None:
        return
    what = '%s %r with %s' % (prog, args, how)
    expect_equal(got[0], want[0], 'exit status of ' + what)
    expect_equal(got[1], want[1], 'output of ' + what)
    expect_equal(sorted(got[2]), sorted(want[2]), 'files of ' + what)
    for n in want[2]:
        if got[2][n] != want[2][n]:
            raise Violation('content of %r: %s' % (n, what))


def run(case):
    prog, args = case['c']
    want = plain(prog, args, case['d'])
    more = []
    if 'with' in case:
        more = [VALUES[case['with'][0]][case['with'][1]]]
    n = 0
    for v in sorted(VALUES[case['of']]):
        got = execute(prog, args, case['d'], more + [VALUES[case['of']][v]])
        compare(got, want, prog, args, '%s %s %s' % (
            case['of'], v, case.get('with', '')))
        n += 1
    return prog, args, case['d'], n, sorted(want[2]), want[0]


FAMILIES = [Family('environment', cases, run, limit=200),
            Family('everything', all_cases, all_run, limit=200),
            Family('pairs', pair_cases, run, limit=200)]
