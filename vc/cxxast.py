"""Extraction of the real code: clang's JSON AST of the instantiated library
functions, produced from /repo on every run."""
import json, subprocess, re, os, hashlib

REPO = os.environ.get('OPENMETHOD_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class ExtractionError(Exception):
    pass

FN = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl',
      'CXXDestructorDecl', 'CXXConversionDecl')

class Unit:
    """All declarations of one translation unit, indexed by id and by
    demangled name."""

    def __init__(self, src, defines=(), filt='boost::openmethod', include=None):
        cmd = ['clang++', '-std=c++17', '-I' + os.path.join(REPO, 'include'),
               '-I' + HERE, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
               '-Xclang', '-ast-dump-filter=' + filt]
        cmd += ['-D' + d for d in defines]
        cmd.append(src)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.cmd = ' '.join(cmd)
        self.src, self.defines = src, defines
        if p.returncode != 0:
            raise ExtractionError('clang failed on %s:\n%s' % (
                src, p.stderr.decode(errors='replace')[:3000]))
        text = p.stdout.decode(errors='replace')
        self.docs = []
        dec = json.JSONDecoder()
        i, n = 0, len(text)
        while True:
            while i < n and text[i] in ' \n\r\t':
                i += 1
            if i >= n:
                break
            if text[i] != '{':
                i = text.index('\n', i) + 1
                continue
            d, i = dec.raw_decode(text, i)
            self.docs.append(d)
        self.by_id = {}
        self.parent = {}
        self.fns = {}
        for d in self.docs:
            self._index(d, None)
        # body of a function may live in another redeclaration
        names = sorted({n['mangledName'] for n in self.fns.values()})
        out = subprocess.run(['c++filt'], input='\n'.join(names).encode(),
                             stdout=subprocess.PIPE).stdout.decode().split('\n')
        self.demangled = dict(zip(names, out))
        self.by_mangled = {}
        for n in self.fns.values():
            self.by_mangled.setdefault(n['mangledName'], n)

    def constant(self, decl):
        """value of an integral static constexpr member whose initialiser lies
        outside the library: evaluated by the compiler"""
        if not hasattr(self, '_consts'):
            ds = [d for d in self.by_id.values() if d.get('kind') == 'VarDecl' and d.get('constexpr')
                  and d.get('storageClass') == 'static' and 'mangledName' in d
                  and re.search(r'\b(int|long|char|bool|short)\b', qual(d))]
            names = sorted({d['mangledName'] for d in ds})
            out = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
            text = '#include "%s"\ntemplate<auto V> struct show_constant;\n' % os.path.abspath(self.src)
            text += ''.join('show_constant<%s> s%d;\n' % (o, i) for i, o in enumerate(out[:len(names)]))
            cmd = ['clang++', '-std=c++17', '-I' + os.path.join(REPO, 'include'), '-I' + HERE, '-fsyntax-only', '-w',
                   '-ferror-limit=0', '-fno-access-control', '-x', 'c++', '-'] + ['-D' + d for d in self.defines]
            p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            self._consts = {}
            for m in re.finditer(r"<stdin>:(\d+):\d+: error: implicit instantiation of undefined template 'show_constant<(\w+)>'", p.stderr.decode(errors='replace')):
                i = int(m.group(1)) - 3
                v = m.group(2)
                self._consts[names[i]] = 1 if v == 'true' else 0 if v == 'false' else int(re.sub(r'[ULul]+$', '', v))
        return self._consts.get(decl.get('mangledName'))

    def _index(self, n, parent):
        i = n.get('id')
        if i is not None:
            old = self.by_id.get(i)
            if old is None or len(n) > len(old):
                self.by_id[i] = n
                self.parent[i] = parent
        if n.get('kind') in FN and 'mangledName' in n and body(n) is not None:
            self.fns[i] = n
        pid = i if n.get('kind', '').endswith('Decl') or n.get('kind') == \
            'ClassTemplateSpecializationDecl' else parent
        for c in n.get('inner', ()):
            if c:
                self._index(c, pid)

    def name(self, fn):
        return self.demangled.get(fn.get('mangledName'), fn.get('name'))

    def definition(self, decl_id):
        f = self.fns.get(decl_id)
        if f is not None:
            return f
        d = self.by_id.get(decl_id)
        if d is not None and 'mangledName' in d:
            return self.by_mangled.get(d['mangledName'])
        return None

    def find(self, regex):
        r = re.compile(regex)
        return [f for m, f in sorted(self.by_mangled.items())
                if r.search(self.demangled[m])]

def body(n):
    for c in n.get('inner', ()):
        if c and c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None

def params(n):
    return [c for c in n.get('inner', ()) if c and c.get('kind') == 'ParmVarDecl']

def walk(n):
    yield n
    for c in n.get('inner', ()):
        if c:
            yield from walk(c)

def qual(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

def kids(n):
    return [c for c in n.get('inner', ())]
