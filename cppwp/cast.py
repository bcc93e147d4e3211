"""Front end: parses /repo's real sources with clang and indexes the typed AST (clang's own JSON dump)."""
import json, os, subprocess, re, sys, hashlib

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFLAGS = ['-std=c++20', '-include', 'algorithm', '-include', 'cstring', '-I/usr/include/poppler',
          '-I' + os.path.join(HERE, 'stub'), '-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR="x"',
          '-DVERSION="x"']


class FrontendError(Exception):
    pass


def clang_dump(path, flt='ppp::', extra=()):
    cmd = ['clang++'] + CFLAGS + ['-I' + REPO + '/src', '-I' + REPO, '-w', '-fsyntax-only',
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt] + list(extra) + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO)
    if p.returncode != 0:
        raise FrontendError('clang cannot parse %s: %s' % (path, p.stderr.decode()[:2000]))
    s = p.stdout.decode('utf-8', 'replace')
    d = json.JSONDecoder()
    i, out, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            i = s.index('\n', i)
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


FUNC = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Func:
    __slots__ = ('name', 'node', 'cls', 'tu', 'params', 'body', 'mangled', 'kind', 'sig', 'static', 'inits')

    def __repr__(self):
        return '<Func %s %s>' % (self.name, self.sig)


class Class:
    __slots__ = ('name', 'fields', 'bases', 'node', 'tu', 'ctors', 'methods', 'ftypes', 'finit')


class Program:
    """Index over the ASTs of several translation units of the real code."""

    def __init__(self, log=None):
        self.ids = {}          # (tu,id) -> (node, qualname-prefix, class)
        self.funcs = {}        # mangled -> Func (with body)
        self.byname = {}       # qualified name -> [Func]
        self.classes = {}      # short name -> Class
        self.globals = {}      # qualified name -> (node, tu)
        self.enums = {}        # short name -> {const: value}
        self.aliases = {}      # short typedef name -> type string
        self.tus = {}
        self.log = log
        self.defaults = {}     # (mangled, i) -> (default argument expression, tu)

    def load(self, relpaths):
        from concurrent.futures import ThreadPoolExecutor
        todo = [p for p in relpaths if p not in self.tus]
        def one(p):
            p, _, flt = p.partition('@')        # 'file@name': declarations outside namespace ppp
            path = p if os.path.isabs(p) else os.path.join(REPO, p)
            return clang_dump(path, flt or 'ppp::')
        with ThreadPoolExecutor(8) as ex:
            for p, tops in zip(todo, ex.map(one, todo)):
                self.tus[p] = True
                for t in tops:
                    self._index(t, '', None, p)

    def load_filtered(self, relpath, flt):
        path = relpath if os.path.isabs(relpath) else os.path.join(REPO, relpath)
        for t in clang_dump(path, flt):
            self._index(t, '', None, relpath)

    def _index(self, n, prefix, cls, tu, tmpl=None):
        k = n.get('kind')
        if 'id' in n:
            self.ids[(tu, n['id'])] = n
        if k == 'NamespaceDecl':
            p = prefix + (n.get('name') + '::' if n.get('name') else '')
            for x in n.get('inner', []):
                self._index(x, p, None, tu)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.get('name')
            if not name:
                return
            if k == 'ClassTemplateSpecializationDecl':
                args = [x for x in n.get('inner', []) if x.get('kind') == 'TemplateArgument']
                targs = ', '.join(shorten_type(a.get('type', {}).get('qualType', a.get('value', '?') if not isinstance(a.get('value'), int) else str(a.get('value')))) for a in args)
                name = '%s<%s>' % (name, targs)
            for x in n.get('inner', []):
                if 'id' in x:
                    self.ids[(tu, x['id'])] = x
            if n.get('completeDefinition'):
                c = Class()
                c.name = name; c.node = n; c.tu = tu
                c.fields = [x for x in n.get('inner', []) if x.get('kind') == 'FieldDecl']
                c.bases = [shorten_type(b['type'].get('desugaredQualType', b['type']['qualType'])) for b in n.get('bases', [])]
                for f in c.fields:
                    f['_class'] = name
                    f['_tu'] = tu
                if name not in self.classes:
                    self.classes[name] = c
                n['_cname'] = name
            p = prefix + name + '::'
            for x in n.get('inner', []):
                if x.get('kind') == 'CXXRecordDecl' and x.get('isImplicit'):
                    continue
                self._index(x, p, name, tu)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for x in n.get('inner', []):
                if x.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._index(x, prefix, None, tu)
                elif x.get('kind') in FUNC and k == 'FunctionTemplateDecl':
                    self._index(x, prefix, cls, tu)
        elif k in FUNC:
            name = n.get('name')
            n['_qn'] = prefix + name
            n['_tu'] = tu
            n['_cls'] = cls
            body = None
            for x in n.get('inner', []):
                if x.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                    body = x
            pc = n.get('parentDeclContextId')
            if cls is None and pc and (tu, pc) in self.ids and self.ids[(tu, pc)].get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                cn = self.ids[(tu, pc)]
                cls = cn.get('_cname', cn.get('name'))
                n['_cls'] = cls
                n['_qn'] = prefix + cls + '::' + name
            for x in n.get('inner', []):
                if x.get('kind') == 'ParmVarDecl':
                    self.ids[(tu, x['id'])] = x
            m = n.get('mangledName')
            for i, x in enumerate(x for x in n.get('inner', []) if x.get('kind') == 'ParmVarDecl'):
                ch = children(x)
                if ch and m:
                    self.defaults.setdefault((m, i), (ch[0], tu))
            if body is not None and m:
                f = Func()
                f.name = n['_qn']; f.node = n; f.cls = cls; f.tu = tu; f.mangled = m; f.kind = k
                f.params = [x for x in n.get('inner', []) if x.get('kind') == 'ParmVarDecl']
                f.inits = [x for x in n.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
                f.body = body
                f.sig = n['type']['qualType']
                f.static = n.get('storageClass') == 'static'
                if m not in self.funcs:
                    self.funcs[m] = f
                    self.byname.setdefault(f.name, []).append(f)
            # static locals and nested ids are resolved lexically by the executor
        elif k == 'VarDecl':
            q = prefix + n.get('name', '')
            n['_qn'] = q; n['_tu'] = tu
            if q not in self.globals or (n.get('init') and not self.globals[q][0].get('init')):
                self.globals[q] = (n, tu)
        elif k == 'EnumDecl':
            vals, cur = {}, -1
            for x in n.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    v = _const_value(x)
                    cur = v if v is not None else cur + 1
                    vals[x['name']] = cur
                    x['_value'] = cur
                    self.ids[(tu, x['id'])] = x
            if n.get('name'):
                self.enums.setdefault(n['name'], vals)
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.aliases[n['name']] = n['type'].get('desugaredQualType', n['type']['qualType'])

    def lookup(self, name, pred=None):
        fs = [f for f in self.byname.get(name, []) if pred is None or pred(f)]
        return fs

    def method_by_class(self, cname, name, nargs):
        """method of a class whose declaration is not in the caller's AST dump (template outside namespace ppp)"""
        fs = [f for f in self.funcs.values() if f.cls == cname and f.name.endswith('::' + name) and len(f.params) == nargs and f.kind == 'CXXMethodDecl']
        return fs[0] if len(fs) == 1 else None

    def base_chain(self, cname):
        out = [cname]
        c = self.classes.get(cname)
        if c:
            for b in c.bases:
                out += self.base_chain(b)
        return out

    def all_fields(self, cname):
        c = self.classes.get(cname)
        if not c:
            return []
        out = []
        for b in c.bases:
            out += self.all_fields(b)
        return out + c.fields


def _const_value(n):
    for x in n.get('inner', []):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        v = _const_value(x)
        if v is not None:
            return v
    return None


_ns = re.compile(r'\b(?:[A-Za-z_]\w*::)+(?=[A-Za-z_])')


def shorten_type(s):
    s = _ns.sub('', s)
    s = re.sub(r'\b(class|struct|enum|typename|volatile)\s+', '', s)
    return s.strip()


# ------------------------------------------------------------------ types

class Ty:
    __slots__ = ('k', 'a', 'n')

    def __init__(self, k, a=(), n=None):
        self.k = k; self.a = tuple(a); self.n = n

    def key(self):
        return (self.k, tuple(x.key() for x in self.a), self.n)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = self.k if self.n is None else '%s:%s' % (self.k, self.n)
        return s + ('<%s>' % ','.join(map(repr, self.a)) if self.a else '')


INTS = {'bool': ('bool', None), 'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8),
        'short': (True, 16), 'unsigned short': (False, 16), 'int': (True, 32), 'unsigned int': (False, 32),
        'long': (True, 64), 'unsigned long': (False, 64), 'long long': (True, 64), 'unsigned': (False, 32),
        'unsigned long long': (False, 64), 'size_t': (False, 64), 'size_type': (False, 64), 'wchar_t': (True, 32),
        'char32_t': (False, 32), 'difference_type': (True, 64), 'ptrdiff_t': (True, 64), 'int64_t': (True, 64),
        'uint32_t': (False, 32), 'int32_t': (True, 32), 'ssize_t': (True, 64), 'streamsize': (True, 64),
        'Unicode': (False, 32), 'utf8proc_ssize_t': (True, 64), 'utf8proc_uint8_t': (False, 8), 'uint8_t': (False, 8),
        'utf8proc_int32_t': (True, 32), 'time_t': (True, 64), 'result_type': (False, 64), '__ssize_t': (True, 64),
        'Guint': (False, 32), 'CharCode': (False, 32)}

VOID = Ty('void'); BOOL = Ty('bool'); DOUBLE = Ty('float', n='double'); FLOAT = Ty('float', n='float')
STR = Ty('str', n='char'); WSTR = Ty('str', n='wchar_t')


def INT(signed=True, bits=32):
    return Ty('int', n=('s' if signed else 'u') + str(bits))


class TypeParser:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def of(self, node):
        t = node.get('type', {})
        return self.parse(t.get('desugaredQualType', t.get('qualType', 'void')), t.get('qualType'))

    def parse(self, s, alt=None):
        key = s
        if key in self.cache:
            return self.cache[key]
        r = self._parse(shorten_type(s))
        self.cache[key] = r
        return r

    def _split(self, s):
        out, d, cur = [], 0, ''
        for ch in s:
            if ch in '<([':
                d += 1
            elif ch in '>)]':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur.strip()); cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    def _parse(self, s):
        s = s.strip()
        while True:
            o = s
            if s.startswith('const ') and not re.match(r'const (char|wchar_t) ?\*', s):
                s = s[6:].strip()
            if s.endswith('const') and (len(s) == 5 or not (s[-6].isalnum() or s[-6] == '_')):
                s = s[:-5].strip()
            if s.endswith('restrict'):
                s = s[:-8].strip()
            if s == o:
                break
        if s.endswith('&&'):
            return Ty('rref', [self._parse(s[:-2])])
        if s.endswith('&'):
            return Ty('ref', [self._parse(s[:-1])])
        if s.endswith('*'):
            # C strings (never null, assumed NUL-terminated) are values
            if re.fullmatch(r'const char|char const', s[:-1].strip()):
                return STR
            if re.fullmatch(r'const wchar_t|wchar_t const', s[:-1].strip()):
                return WSTR
            return Ty('ptr', [self._parse(s[:-1])])
        if s.endswith(')'):
            return Ty('fn', n=s)
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return Ty('arr', [self._parse(m.group(1))], m.group(2))
        if s in ('void', 'nullptr_t'):
            return VOID if s == 'void' else Ty('ptr', [VOID])
        if s == 'double' or s == 'long double':
            return DOUBLE
        if s == 'float':
            return FLOAT
        if s in INTS:
            sg, b = INTS[s]
            return BOOL if sg == 'bool' else INT(sg, b)
        if s in ('string', 'basic_string<char>', 'basic_string<char, char_traits<char>, allocator<char>>', 'string_view', 'basic_string_view<char>', '__cxx11::basic_string<char>'):
            return STR
        if s in ('wstring', 'basic_string<wchar_t>', 'basic_string<wchar_t, char_traits<wchar_t>, allocator<wchar_t>>'):
            return WSTR
        m = re.match(r'^([A-Za-z_]\w*)<(.*)>(?:::(\w+))?$', s, re.S)
        if m and not m.group(3):
            nm, args = m.group(1), self._split(m.group(2))
            if nm in ('vector', 'deque', 'list', 'initializer_list', 'span', 'stack'):
                return Ty('vec', [self._parse(args[0])], nm if nm != 'vector' else None)
            if nm == 'array':
                return Ty('arr', [self._parse(args[0])], re.sub(r'\D', '', args[1]))
            if nm in ('unordered_map', 'map'):
                return Ty('map', [self._parse(args[0]), self._parse(args[1])], nm)
            if nm in ('unordered_set', 'set'):
                return Ty('set', [self._parse(args[0])], nm)
            if nm in ('pair', 'tuple'):
                return Ty('tup', [self._parse(a) for a in args])
            if nm in ('basic_ostream', 'basic_stringstream', 'basic_ostringstream', 'basic_iostream', 'basic_ofstream', 'basic_istringstream'):
                return Ty('stream')
            if nm in ('unique_ptr', 'shared_ptr'):
                return Ty('ptr', [self._parse(args[0])])
            if nm in ('function',):
                return Ty('func', n=s)
            if nm in ('__normal_iterator', 'reverse_iterator', '_Node_iterator', '_Node_const_iterator', '_Rb_tree_iterator', 'move_iterator'):
                return Ty('iter', n=s)
            if nm in self.prog.classes or s in self.prog.classes:
                return Ty('rec', n=s if s in self.prog.classes else nm)
            key = '%s<%s>' % (nm, ', '.join(args))
            if key in self.prog.classes:
                return Ty('rec', n=key)
            return Ty('opq', n=s)
        if s in ('ostream', 'stringstream', 'ostringstream', 'istringstream', 'ofstream', 'iostream', 'istream', 'ifstream'):
            return Ty('stream')
        if s in self.prog.enums:
            return Ty('enum', n=s)
        if s in self.prog.classes:
            return Ty('rec', n=s)
        if s in self.prog.aliases:
            return self.parse(self.prog.aliases[s])
        if s in ('iterator', 'const_iterator', 'reverse_iterator'):
            return Ty('iter', n=s)
        return Ty('opq', n=s)


def children(n):
    return [x for x in n.get('inner', []) if isinstance(x, dict)]


def line_of(n):
    for key in ('loc',):
        l = n.get(key, {})
        if 'line' in l:
            return l['line']
        if 'expansionLoc' in l and 'line' in l['expansionLoc']:
            return l['expansionLoc']['line']
    r = n.get('range', {}).get('begin', {})
    if 'line' in r:
        return r['line']
    if 'expansionLoc' in r and 'line' in r['expansionLoc']:
        return r['expansionLoc']['line']
    return None
