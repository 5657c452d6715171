"""Random interface definitions for the generator checks: valid Thrift 0.9 programs, seeded.

They stay away from what DESIGN.md lists as not supported by the generated code's naming scheme (names that
become equal once capitalised, names of methods every struct or client has, names that begin with an underscore).
"""
import random

BASE = ['bool', 'byte', 'i16', 'i32', 'i64', 'double', 'string', 'binary']
KEYWORDS = ['type', 'func', 'range', 'var', 'chan', 'select', 'go', 'package', 'import', 'defer', 'fallthrough', 'goto',
            'interface', 'break', 'default', 'map2', 'error', 'struct2', 'const2', 'else2', 'Type', 'FUNC', 'iF', 'return2']
# words of the definition language itself cannot be used as names
IDLWORDS = {'struct', 'enum', 'const', 'map', 'list', 'set', 'service', 'extends', 'throws', 'exception', 'include', 'namespace',
            'typedef', 'required', 'optional', 'oneway', 'async', 'void', 'bool', 'byte', 'i16', 'i32', 'i64', 'double', 'string',
            'binary', 'union', 'slist', 'senum', 'true', 'false', 'break', 'case', 'default', 'else', 'if', 'return', 'for', 'while',
            'import', 'var', 'switch', 'continue', 'global', 'abstract', 'and', 'args', 'as', 'assert', 'class', 'begin', 'clone',
            'declare', 'def', 'del', 'delete', 'do', 'dynamic', 'elseif', 'elsif', 'end', 'except', 'exec', 'finally', 'float',
            'foreach', 'from', 'function', 'goto', 'implements', 'in', 'instanceof', 'inline', 'interface', 'is', 'lambda', 'module',
            'native', 'new', 'next', 'nil', 'not', 'or', 'package', 'pass', 'public', 'print', 'private', 'protected', 'raise',
            'redo', 'rescue', 'retry', 'register', 'self', 'sizeof', 'static', 'super', 'synchronized', 'then', 'this', 'throw',
            'transient', 'try', 'undef', 'unless', 'unsigned', 'until', 'use', 'virtual', 'volatile', 'when', 'with', 'xor', 'yield',
            'alias', 'ensure', 'BEGIN', 'END', '__CLASS__', '__DIR__', '__FILE__', '__FUNCTION__', '__LINE__', '__METHOD__',
            '__NAMESPACE__', 'cpp_include', 'php_namespace', 'xsd_all', 'xsd_optional', 'xsd_nillable', 'xsd_attrs'}
WORDS = ['alpha', 'beta', 'user', 'name', 'count', 'total', 'id', 'value', 'key', 'data', 'flag', 'node', 'left', 'right', 'size',
         'time', 'stamp', 'code', 'kind', 'mode', 'level', 'owner', 'path', 'x', 'y', 'z', 'a', 'b', 'row', 'col', 'p', 'err',
         'iprot', 'oprot', 'result', 'seqId', 'mTypeId', 'math', 'thrift', 'fmt', 'output', 'fieldId', 'fieldName', 'URL', 'ID']
# exported names that the generated types already have
TAKEN = {'Read', 'Write', 'String', 'CompareTo', 'TStructName', 'ThriftName', 'AttributeByFieldId', 'AttributeFromFieldId',
         'AttributeFromFieldName', 'AttributeByFieldName', 'TStructFields', 'TStruct', 'FieldNameFromFieldId',
         'FieldIdFromFieldName', 'FieldFromFieldId', 'FieldFromFieldName', 'At', 'Contains', 'Len', 'Equals', 'IsEmpty', 'Iter',
         'First', 'Last', 'FieldNameFromFieldName', 'FieldContainer', 'Fields', 'Name', 'Compare', 'Less', 'Swap', 'Append',
         'TFieldContainer', 'Error'}
TAKEN_FUNC = {'Transport', 'ProtocolFactory', 'InputProtocol', 'OutputProtocol', 'SeqId', 'Handler', 'Process', 'ProcessorMap',
              'AddToProcessorMap', 'GetProcessorFunction'}
GO_KEYWORDS = {'break', 'case', 'chan', 'const', 'continue', 'default', 'defer', 'else', 'error', 'fallthrough', 'for', 'func', 'go',
               'goto', 'if', 'import', 'interface', 'map', 'package', 'range', 'return', 'select', 'struct', 'switch', 'type', 'var'}


def publicize(s):
    """The exported Go name: first letter upper case, an underscore before a letter dropped and the letter capitalised."""
    if not s:
        return s
    out = [s[0].upper()]
    i = 1
    while i < len(s):
        if s[i] == '_' and i + 1 < len(s) and s[i + 1].isalpha():
            out.append(s[i + 1].upper())
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def go_name(s):
    """Words that are keywords of Go, in whatever case, get a suffix."""
    return s.lower() + '_a1' if s.lower() in GO_KEYWORDS else s


class Prog:
    def __init__(self, r, name, ns, includes, stem):
        self.r, self.name, self.ns, self.includes, self.stem = r, name, ns, includes, stem
        self.out = []
        self.types = []     # (reference, kind, info)
        self.used = set()   # exported names of the package
        self.services = []  # (name, set of function names)
        self.enums, self.structs, self.excs, self.typedefs = {}, {}, {}, {}
        self.funcs = set()

    # names
    def ident(self, used, keywords=True, taken=TAKEN, pascal=False):
        r = self.r
        while True:
            k = r.random()
            if keywords and k < 0.07:
                s = r.choice(KEYWORDS)
            elif k < 0.35:
                s = r.choice(WORDS)
            elif k < 0.6:
                s = r.choice(WORDS) + '_' + r.choice(WORDS)
            elif k < 0.75:
                s = r.choice(WORDS) + r.choice(WORDS).capitalize()
            elif k < 0.8:
                s = r.choice(WORDS) + '_' + str(r.randrange(20)) + r.choice(['', '_', 'a'])
            elif k < 0.85:
                s = r.choice(WORDS).upper() + '_' + r.choice(WORDS).upper()
            else:
                s = r.choice(WORDS) + str(r.randrange(100))
            if pascal:
                s = r.choice([publicize(s), publicize(s), s])
            pub = publicize(go_name(s))
            if s.lower() in {w.lower() for w in IDLWORDS} or pub in taken or pub.lower() in {u.lower() for u in used}:
                continue
            if pub.startswith(('IsSet', 'ReadField', 'WriteField', 'Send', 'Recv')):
                continue
            used.add(pub)
            return s

    def typename(self):
        while True:
            s = self.ident(set(), keywords=False, pascal=True)
            s += self.r.choice(['', '', 'T', 'Info', '_rec'])
            pub = publicize(s)
            bad = {pub, 'New' + pub, 'From' + pub + 'String', 'I' + pub, pub + 'Client', pub + 'Processor', pub + 'Args', pub + 'Result'}
            low = {b.lower() for b in bad}
            if low & self.used or pub.lower() in ('i', 'thrift', 'math', 'fmt') or s.lower() in {w.lower() for w in IDLWORDS}:
                continue
            self.used |= low
            return s

    # types
    def all(self, what):
        res = [(n, i) for n, i in getattr(self, what).items()]
        for inc in self.includes:
            res += [(inc.name + '.' + n, i) for n, i in getattr(inc, what).items()]
        return res

    def typ(self, depth=2, key=False):
        """(text, model) where model is ('base', n) ('enum', vals) ('struct', fields) ('list', m) ..."""
        r = self.r
        k = r.random()
        if key or depth <= 0 or k < 0.45:
            c = r.random()
            es, ts = self.all('enums'), [t for t in self.all('typedefs') if t[1][0] in ('base', 'enum')]
            if c < 0.16 and es:
                n, v = r.choice(es)
                return n, ('enum', v, n)
            if c < 0.28 and ts:
                n, m = r.choice(ts)
                return n, m
            b = r.choice([x for x in BASE if not (key and x == 'double')])
            return b, ('base', b)
        if k < 0.62:
            ss = self.all('structs') + self.all('excs')
            if ss:
                n, f = r.choice(ss)
                return n, ('struct', f)
            return 'i32', ('base', 'i32')
        if k < 0.70:
            ts = self.all('typedefs')
            if ts:
                return r.choice(ts)
            return 'string', ('base', 'string')
        c = r.random()
        if c < 0.45:
            t, m = self.typ(depth - 1)
            return 'list<%s>' % t, ('list', m)
        if c < 0.65:
            t, m = self.typ(depth - 1, key=r.random() < 0.85)
            return 'set<%s>' % t, ('set', m)
        kt, km = self.typ(depth - 1, key=True)
        vt, vm = self.typ(depth - 1)
        return 'map<%s,%s>' % (kt, vt), ('map', km, vm)

    # constant values
    def const(self, m, depth=0):
        r = self.r
        if m[0] == 'base':
            b = m[1]
            if b == 'bool':
                return r.choice(['true', 'false', '1', '0'])
            lim = {'byte': 7, 'i16': 15, 'i32': 31, 'i64': 62}.get(b)
            if lim:
                v = r.choice([0, 1, -1, 5, r.randrange(-2 ** lim, 2 ** lim), 2 ** lim - 1, -2 ** lim])
                if b == 'byte':
                    v = max(-128, min(127, v))
                return str(v)
            if b == 'double':
                return r.choice(['0.0', '1.5', '-2.25', '3', '-17', '0.1', '1.23456789012345', '1e10', '-1.7976931348623157e308', '6.02e-23',
                                 '0.30000000000000004', '1e-300', '123456789.0', repr(r.uniform(-1e6, 1e6))])
            s = r.choice(['', 'x', 'hello world', 'with \\"quotes\\"', 'back\\\\slash', 'tab\\there', 'nl\\nx', 'percent %s %d', "it's", 'ünï',
                          'a{b}', '`tick`', '// no comment', '/* none */', 'r\\r'])
            return '"%s"' % s
        if m[0] == 'enum':
            n = m[2]
            if not m[1]:
                return '0'
            v = r.choice(m[1])
            return '%s.%s' % (n, v[0])
        if m[0] == 'struct':
            fs = [f for f in m[1] if r.random() < 0.6]
            if depth > 2:
                fs = [f for f in fs if f[1][0] in ('base', 'enum')]
            return '{%s}' % ', '.join('"%s": %s' % (f[0], self.const(self.local(f), depth + 1)) for f in fs)
        n = 0 if depth > 2 else r.randrange(0, 4)
        if m[0] == 'map':
            items, seen = [], set()
            for _ in range(n):
                k = self.const(m[1], depth + 1)
                key = k.lower().replace('true', '1').replace('false', '0')
                if key in seen or m[1][0] == 'enum' and seen:
                    continue
                seen.add(key)
                items.append('%s: %s' % (k, self.const(m[2], depth + 1)))
            return '{%s}' % ', '.join(items)
        items, seen = [], set()
        for _ in range(n):
            v = self.const(m[1], depth + 1)
            key = v.lower().replace('true', '1').replace('false', '0')
            if m[0] == 'set' and (key in seen or m[1][0] in ('enum', 'struct') and seen or m[1] == ('base', 'double') and seen):
                continue
            seen.add(key)
            items.append(v)
        return '[%s]' % ', '.join(items)

    def local(self, f):
        """The model of a field of a struct that may be of another program: enum names need that program's prefix."""
        return f[1]

    def fixup(self, m, prefix):
        """A model as seen from a program that includes this one."""
        if m[0] == 'enum':
            return ('enum', m[1], m[2] if '.' in m[2] else prefix + m[2])
        if m[0] in ('list', 'set'):
            return (m[0], self.fixup(m[1], prefix))
        if m[0] == 'map':
            return ('map', self.fixup(m[1], prefix), self.fixup(m[2], prefix))
        if m[0] == 'struct':
            return ('struct', [(n, self.fixup(x, prefix)) for n, x in m[1]])
        return m

    def plain(self, m):
        """Whether constants of this type can be written here: enum values are reachable through direct includes only."""
        if m[0] == 'enum':
            return m[2].count('.') == 0 or m[2].split('.')[0] in [i.name for i in self.includes]
        if m[0] in ('list', 'set'):
            return self.plain(m[1])
        if m[0] == 'map':
            return self.plain(m[1]) and self.plain(m[2])
        if m[0] == 'struct':
            return all(self.plain(x) for _, x in m[1])
        return True

    # definitions
    def doc(self, ind=''):
        if self.r.random() < 0.15:
            self.out.append(ind + self.r.choice(['/** A word about it. */', '/** Two lines\n%s * of text, %%s "quoted" */' % ind, '/**\n%s * Indented\n%s */' % (ind, ind)]))

    def enum(self):
        r = self.r
        n = self.typename()
        vals, used, used_v, v = [], set(), set(), -1
        for _ in range(r.randrange(1, 7)):
            nm = self.ident(used, keywords=False, taken=set())
            if nm.lower() in ('string', 'value'):
                continue
            ex = ''
            if r.random() < 0.5:
                v = r.choice([v + 1, v + r.randrange(1, 50), r.randrange(0, 2 ** 31 - 100)])
                ex = ' = %d' % v
                if v in used_v:
                    v = max(used_v) + 1
                    ex = ' = %d' % v
            else:
                v += 1
                if v in used_v:
                    v = max(used_v) + 1
                    ex = ' = %d' % v
            if v > 2 ** 31 - 1:
                break
            used_v.add(v)
            vals.append((nm, v, ex))
        if not vals:
            vals = [('ONLY', 0, '')]
        self.doc()
        self.out.append('enum %s {' % n)
        for nm, v, ex in vals:
            self.out.append('  %s%s%s' % (nm, ex, r.choice([',', ',', ''])))
        self.out.append('}')
        self.enums[n] = [(a, b) for a, b, _ in vals]

    def typedef(self):
        n = self.typename()
        t, m = self.typ(2)
        self.doc()
        self.out.append('typedef %s %s' % (t, n))
        self.typedefs[n] = m

    def fields(self, count, optional=True, noid=0.1, defaults=True, taken=TAKEN, used=None):
        r = self.r
        used = set() if used is None else used
        auto = r.random() < noid
        ids = set()
        lines, res = [], []
        fid = 0
        for _ in range(count):
            name = self.ident(used, taken=taken)
            t, m = self.typ(3)
            step = r.choice([1, 1, 1, 1, 2, 5, r.randrange(1, 40), r.choice([1, 7, 16, 100, 128, 200])])
            fid += step if fid < 30000 else 1
            if r.random() < 0.002 and not auto and fid < 30000:
                fid = r.choice([1024, 4096, 32000, 32767 - count])
            head = ''
            if not auto or r.random() < 0.5 and fid not in ids:
                head = '%d: ' % fid
                ids.add(fid)
            req = r.choice(['', '', 'optional ', 'required ']) if optional else ''
            d = ''
            if defaults and r.random() < 0.3 and self.plain(m):
                d = ' = ' + self.const(m)
            lines.append('  %s%s%s %s%s%s' % (head, req, t, name, d, r.choice([',', ';', '', ','])))
            res.append((name, m))
        if not auto and r.random() < 0.3:
            z = list(zip(lines, res))
            r.shuffle(z)
            lines, res = [a for a, _ in z], [b for _, b in z]
        return lines, res

    def struct(self, word='struct'):
        n = self.typename()
        c = self.r.choice([0, 1, 2, 3, 4, 6, 9]) if word == 'struct' else self.r.randrange(0, 4)
        lines, fs = self.fields(c)
        self.doc()
        self.out.append('%s %s {' % (word, n))
        self.out += lines
        self.out.append('}')
        (self.structs if word == 'struct' else self.excs)[n] = fs

    def constant(self):
        t, m = self.typ(3)
        if not self.plain(m):
            return
        n = self.ident(self.constnames, keywords=False, taken=set())
        self.doc()
        self.out.append('const %s %s = %s' % (t, n, self.const(m)))

    def service(self):
        r = self.r
        n = self.typename()
        ext, inherited = '', set()
        parents = [(s, self, '') for s in self.services] + [(s, i, i.name + '.') for i in self.includes for s in i.services]
        if parents and r.random() < 0.6:
            (pn, pf), _, pre = r.choice(parents)
            ext, inherited = ' extends %s%s' % (pre, pn), pf
        names = set()
        body = []
        for _ in range(r.randrange(0, 6)):
            # function names give the names of package level types
            used = set(self.funcs) | set(inherited)
            while True:
                f = self.ident(used, keywords=False, taken=TAKEN | TAKEN_FUNC)
                pub = publicize(f)
                low = {(pub + 'Args').lower(), (pub + 'Result').lower(), ('New' + pub + 'Args').lower(), ('New' + pub + 'Result').lower(),
                       }
                if not low & self.used:
                    break
            self.used |= low
            self.funcs.add(pub)
            names.add(pub)
            oneway = r.random() < 0.15
            ret = 'void' if oneway or r.random() < 0.2 else self.typ(2)[0]
            args, _ = self.fields(r.choice([0, 1, 1, 2, 3, 5]), optional=False, noid=0.2, defaults=r.random() < 0.3)
            throws = ''
            ex = self.all('excs')
            if ex and not oneway and r.random() < 0.5:
                used2, parts = set(), []
                tid, plain = 0, r.random() < 0.6
                unnumbered = r.random() < 0.1
                for k in range(r.randrange(1, 4)):
                    tid += 1 if plain else r.choice([1, 2, 6, 15, 90, 200, 3000])
                    parts.append('%s %s %s' % ('' if unnumbered else '%d:' % tid, r.choice(ex)[0], self.ident(used2)))
                if not plain:
                    r.shuffle(parts)
                throws = ' throws (%s)' % ', '.join(parts)
                if any(publicize(go_name(p.split()[-1])) == 'Success' for p in parts):
                    throws = ''
            self.r.random()
            if r.random() < 0.15:
                body.append('  /** what it does */')
            body.append('  %s%s %s(%s)%s%s' % ('oneway ' if oneway else '', ret, f, ' '.join(a.strip() for a in args), throws, r.choice([',', ';', ''])))
        self.doc()
        self.out.append('service %s%s {' % (n, ext))
        self.out += body
        self.out.append('}')
        self.services.append((n, names | inherited))

    def build(self, size):
        r = self.r
        if self.ns:
            self.out.append('namespace go %s' % self.ns)
        if r.random() < 0.3:
            self.out.append('namespace java com.example.%s' % self.name)
        for i in self.includes:
            self.out.append('include "%s.thrift"' % i.stem)
        if r.random() < 0.5:
            self.out.append(r.choice(['# a comment', '// a comment', '/* a comment\n over lines */']))
        self.constnames = set()
        for _ in range(size):
            k = r.random()
            if k < 0.14:
                self.enum()
            elif k < 0.26:
                self.typedef()
            elif k < 0.62:
                self.struct()
            elif k < 0.72:
                self.struct('exception')
            elif k < 0.88:
                self.constant()
            else:
                self.service()
        self.service()
        return '\n'.join(self.out) + '\n'


class View:
    """A program as one that includes it sees it."""

    def __init__(self, p):
        self.name, self.stem = p.name, p.stem
        pre = p.name + '.'
        self.enums = dict(p.enums)
        self.structs = {n: p.fixup(('struct', f), pre)[1] for n, f in p.structs.items()}
        self.excs = {n: p.fixup(('struct', f), pre)[1] for n, f in p.excs.items()}
        self.typedefs = {n: p.fixup(m, pre) for n, m in p.typedefs.items()}
        self.services = p.services


def generate(seed, k):
    """Program set k: [(file name, text)], the last one being the main program."""
    r = random.Random('%s/%d' % (seed, k))
    n = r.choice([1, 1, 2, 2, 3])
    progs, files = [], []
    for i in range(n):
        stem = 'q%d%s' % (k, 'abc'[i])
        ns = r.choice(['', 'ns%d%s' % (k, 'abc'[i]), 'dir%d.ns%d%s' % (k, k, 'abc'[i]), 'd.e%d.f%s%d' % (k, 'abc'[i], k)])
        inc = [View(p) for p in progs if r.random() < 0.8]
        if i == n - 1 and not inc and progs:
            inc = [View(progs[-1])]
        p = Prog(r, stem, ns, inc, stem)
        text = p.build(r.choice([3, 6, 10, 16]))
        progs.append(p)
        files.append((stem + '.thrift', text))
    return files
