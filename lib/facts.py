"""Extraction of facts from /repo's current working tree, and the program model.

Every run parses the current sources with clang (through tool/extract.cpp) and
loads the resolved syntax trees and control flow graphs.  Results are cached
under a key made of the contents of every source file, so that a run on a
changed tree never uses stale facts.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ALUSUS_REPO', '/repo')
SRC = os.path.join(REPO, 'Sources')
TOOL_SRC = os.path.join(VERIF, 'tool', 'extract.cpp')


class Broken(Exception):
    """The analysis cannot give an answer (exit code 3)."""


def cache_dir():
    d = os.environ.get('VERIF_CACHE') or os.path.join(VERIF, '.cache')
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'alusus-verif-cache')
        os.makedirs(d, exist_ok=True)
        return d


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def build_tool():
    src = open(TOOL_SRC, 'rb').read()
    out = os.path.join(cache_dir(), 'extract-' + sha(src))
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', TOOL_SRC, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so', '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('cannot build the fact extractor:\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def flags():
    f = ['-DALUSUS_HIJRI_RELEASE_DATE=""', '-DALUSUS_RELEASE_DATE="2026-01-12"', '-DALUSUS_REVISION="-DEV"',
         '-DALUSUS_VERSION="0.0.0"', '-DUSE_LOGS',
         '-I/opt/vp/llvm-compat/include', '-I/usr/lib/llvm-14/include',
         '-I' + SRC + '/Srt/Srl', '-I' + SRC + '/Core', '-I' + SRC + '/Spp',
         '-fPIC', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
         '-fno-rtti', '-std=c++17', '-w', '-ferror-limit=5', '-Qunused-arguments']
    return f


def source_files():
    r = []
    for root in ('Core', 'Spp', 'Srt/Srl'):
        for p in sorted(glob.glob(os.path.join(SRC, root, '**', '*.cpp'), recursive=True)):
            r.append(p)
    return r


def tree_hash():
    h = hashlib.sha256()
    for root in ('Core', 'Spp', 'Srt/Srl'):
        for dp, dn, fn in sorted(os.walk(os.path.join(SRC, root))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.cpp', '.hpp', '.inc', '.c')):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    h.update(open(TOOL_SRC, 'rb').read())
    h.update('\0'.join(flags()).encode())
    return h.hexdigest()[:24]


def chunks():
    files = source_files()
    spp = [f for f in files if '/Sources/Spp/' in f]
    core = [f for f in files if '/Sources/Core/' in f]
    single = [f for f in core if os.path.dirname(f) == SRC + '/Core']
    core = [f for f in core if f not in single]
    other = [f for f in files if f not in spp and f not in core and f not in single]

    def split(lst, n):
        lst = sorted(lst, key=lambda f: -os.path.getsize(f))
        bins = [[0, []] for _ in range(n)]
        for f in lst:
            b = min(bins, key=lambda b: b[0])
            b[0] += os.path.getsize(f)
            b[1].append(f)
        return [sorted(b[1]) for b in bins if b[1]]
    res = []
    for c in split(spp, 4):
        res.append(('spp.h', c))
    for c in split(core, 2):
        res.append(('core.h', c))
    for f in single + other:
        res.append((None, [f]))
    return res


def run_extract(tool, out, header, files, tmpd):
    uni = os.path.join(tmpd, 'u%s.cpp' % sha('|'.join(files)))
    with open(uni, 'w') as f:
        if header:
            f.write('#include "%s"\n' % header)
        for x in files:
            f.write('#include "%s"\n' % x)
    r = subprocess.run([tool, SRC + '/', out, uni, '--'] + flags(), capture_output=True, text=True, cwd=tmpd)
    return r.returncode, r.stderr


def extract():
    key = tree_hash()
    cdir = os.path.join(cache_dir(), 'facts-' + key)
    if os.path.exists(os.path.join(cdir, 'done')):
        return cdir
    tool = build_tool()
    tmpd = tempfile.mkdtemp(prefix='facts-', dir=cache_dir())
    jobs = []
    for i, (h, files) in enumerate(chunks()):
        jobs.append((os.path.join(tmpd, '%02d.jsonl' % i), h, files))

    def work(j):
        rc, err = run_extract(tool, j[0], j[1], j[2], tmpd)
        if rc != 0 and len(j[2]) > 1:
            # The files may not be combinable into one unit: parse each on its own.
            outs = []
            os.unlink(j[0])
            for k, f in enumerate(j[2]):
                o = j[0].replace('.jsonl', '_%02d.jsonl' % k)
                rc, err = run_extract(tool, o, j[1], [f], tmpd)
                if rc != 0:
                    return (f, err)
            return None
        return None if rc == 0 else (j[2], err)
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(work, jobs) if e]
    if errs:
        shutil.rmtree(tmpd, ignore_errors=True)
        raise Broken('the sources do not parse: %s\n%s' % (errs[0][0], errs[0][1][-2000:]))
    open(os.path.join(tmpd, 'done'), 'w').write('')
    # keep the cache small
    old = sorted(glob.glob(os.path.join(cache_dir(), 'facts-*')), key=os.path.getmtime)
    old = [o for o in old if o != tmpd and os.path.exists(os.path.join(o, 'done'))]
    for o in old[:-3]:
        shutil.rmtree(o, ignore_errors=True)
    try:
        os.rename(tmpd, cdir)
    except OSError:
        return tmpd
    return cdir


class Fn:
    __slots__ = ('o', 'u', 'q', 'n', 'f', 'l', 'nodes', 'params', 'cfg', 'body', 'cls', 'blocks', 'prog', '_x')

    def __init__(self, o, prog):
        self.o = o
        self.prog = prog
        self.u = o['u']
        self.q = o['q']
        self.n = o['n']
        self.f = o['f']
        self.l = o['l']
        self.nodes = o['nodes']
        self.params = o['params']
        self.cfg = o['cfg']
        self.body = o['body']
        self.cls = o.get('cls')
        self.blocks = None
        self._x = {}

    def blk(self):
        if self.blocks is None:
            self.prog.analysed.add('%s (%s)' % (self.q, self.loc()))
            self.blocks = {b['id']: b for b in self.cfg.get('blocks', [])}
        return self.blocks

    @property
    def file(self):
        return self.f.replace(REPO + '/', '')

    def loc(self, node=None):
        if node is None:
            return '%s:%d' % (self.file, self.l)
        if isinstance(node, int):
            node = self.nodes[node]
        return '%s:%d' % (self.file, node.get('l', self.l))

    def walk(self, root=None):
        """Yields (id, node) of the subtree, in pre-order."""
        st = [self.body if root is None else root]
        seen = set()
        while st:
            i = st.pop()
            if i is None or i < 0 or i in seen:
                continue
            seen.add(i)
            n = self.nodes[i]
            if n is None:
                continue
            yield i, n
            st.extend(reversed(n['c']))

    def all_nodes(self):
        for i, n in enumerate(self.nodes):
            if n is not None:
                yield i, n

    def parents(self):
        if 'par' not in self._x:
            p = {}
            for i, n in self.all_nodes():
                for c in n['c']:
                    if c >= 0:
                        p.setdefault(c, i)
            self._x['par'] = p
        return self._x['par']

    def __repr__(self):
        return '<Fn %s %s>' % (self.q, self.loc())


CALLS = ('Call', 'MCall', 'OpCall', 'ICall', 'Construct')


class Prog:
    def __init__(self):
        self.analysed = set()
        cdir = extract()
        self.fns = {}
        self.byq = {}
        self.classes = {}
        self.enums = {}
        self.vars = {}
        self.nfiles = set()
        for p in sorted(glob.glob(os.path.join(cdir, '*.jsonl'))):
            for line in open(p, encoding='utf-8', errors='replace'):
                o = json.loads(line)
                r = o['rec']
                if r == 'fn':
                    if o['u'] in self.fns:
                        continue
                    f = Fn(o, self)
                    self.fns[f.u] = f
                    self.byq.setdefault(f.q, []).append(f)
                    self.nfiles.add(f.f)
                elif r == 'class':
                    k = o['q']
                    if k not in self.classes or (self.classes[k].get('dep') and False):
                        self.classes.setdefault(k, o)
                    self.classes.setdefault(o['T'], o)
                elif r == 'enum':
                    self.enums.setdefault(o['q'], o)
                elif r == 'var':
                    self.vars.setdefault(o['q'], o)
        if len(self.fns) < 2000:
            raise Broken('only %d functions found; the extraction is incomplete' % len(self.fns))
        self._bind = None
        self._over = None
        self._sub = None

    def fn(self, q, required=True):
        l = [f for f in self.byq.get(q, [])]
        if not l:
            if required:
                raise Broken('anchor function %s not found' % q)
            return None
        c = [f for f in l if not f.o.get('inst')]
        return (c or l)[0]

    def cls(self, q, required=True):
        c = self.classes.get(q)
        if c is None and required:
            raise Broken('anchor class %s not found' % q)
        return c

    # field (qualified) of a binding cache -> [(Fn, assigning function, node id)]
    def bindings(self):
        if self._bind is None:
            b = {}
            for f in self.fns.values():
                if f.o.get('inst') and False:
                    continue
                for i, n in f.all_nodes():
                    if n['k'] == 'OpCall' and n.get('op') == '=' and len(n['c']) == 2:
                        lhs = f.nodes[n['c'][0]]
                        if lhs['k'] == 'MemberExpr' and lhs.get('dk') == 'field' and 'BindingCache' in lhs.get('t', ''):
                            t = self.funcref(f, n['c'][1])
                            b.setdefault(lhs['d'], []).append((t, f, i))
            self._bind = b
        return self._bind

    def funcref(self, f, i):
        """The function designated by an expression (&Class::fn or fn), or None."""
        while i is not None and i >= 0:
            n = f.nodes[i]
            if n['k'] == 'DeclRefExpr' and n.get('dk') == 'func':
                return n['d'], n['u']
            if n['k'] == 'UnaryOperator' and n.get('op') == '&' or n['k'] in ('Cast', 'Construct') and len(n['c']) == 1:
                i = n['c'][0]
                continue
            if n['k'] == 'DeclRefExpr' and n.get('dk') == 'local' and self.once(f, n['d']) is not None:
                i = self.once(f, n['d'])
                continue
            return None
        return None

    def once(self, f, d):
        """The initial value of a local that is never changed afterwards."""
        if 'once' not in f._x:
            init, other = {}, set()
            for _, n in f.all_nodes():
                if n['k'] == 'DeclStmt':
                    for v in n['vars']:
                        init[v['d']] = v['i']
                l = None
                if n['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'OpCall') and n.get('op', '').endswith('=') and \
                        n.get('op') not in ('==', '!=', '<=', '>=') and n['c'] or n['k'] == 'UnaryOperator' and n.get('op') == '&':
                    l = f.nodes[n['c'][0]]
                if l is not None and l['k'] == 'DeclRefExpr':
                    other.add(l['d'])
            f._x['once'] = {d: i for d, i in init.items() if d not in other and i is not None and i >= 0}
        return f._x['once'].get(d)

    def overriders(self):
        if self._over is None:
            o = {}
            for f in self.fns.values():
                for u in f.o.get('ov', []):
                    o.setdefault(u, []).append(f)
            self._over = o
        return self._over

    def bases(self, q, seen=None):
        """All (transitive) base class names."""
        seen = set() if seen is None else seen
        c = self.classes.get(q)
        if not c:
            return seen
        for b in c['bases']:
            k = b.get('q')
            if k and k not in seen:
                seen.add(k)
                self.bases(k, seen)
        return seen

    def derived(self, q):
        return sorted({c['q'] for c in self.classes.values() if q in self.bases(c['q'])})
