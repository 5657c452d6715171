"""Runs the code generator of the tree under test on interface definitions and builds the monitor together with what it
generates.

prepare() compiles compiler/cpp/src/generate/t_go_generator.cc with our front end (cpp/idl.cc), with the address and
undefined-behaviour sanitizers for C29, runs it on fixed and random definitions, compiles every generated package and writes
a registration file per definition set, from which go/src/vmon/gen.go knows what there is. What goes wrong on the way is
returned as violations of C29; sets in trouble are left out of the monitor.
"""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import genidl  # noqa: E402
from genidl import publicize, go_name  # noqa: E402

GENERATOR = 'compiler/cpp/src/generate/t_go_generator.cc'
FIXED = [  # name, directory, main file
    ('fixed-features', 'cpp/fixed', 'a.thrift'),
]
REPO_FIXED = [
    ('fixed-simple', 'tests/generation/simple.thrift'),
    ('fixed-cassandra', 'tests/cassandra-1.1.4/cassandra.thrift'),
]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def text(p):
    return p.stdout.decode('utf8', 'replace')


def build_generator(scratch, repo, here, sanitize, undecided):
    out = os.path.join(scratch, 'idl-san' if sanitize else 'idl-plain')
    flags = ['-std=gnu++11', '-Wno-everything', '-I' + os.path.join(here, 'cpp'), '-I' + os.path.join(repo, 'compiler/cpp/src/generate'), '-g']
    if sanitize:
        flags += ['-O1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined']
    else:
        flags += ['-O0']
    srcs = [os.path.join(here, 'cpp/idl.cc'), os.path.join(repo, GENERATOR)]
    objs = [out + '-%d.o' % i for i in range(len(srcs))]
    ps = [subprocess.Popen(['clang++'] + flags + ['-c', '-o', o, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for s, o in zip(srcs, objs)]
    for p in ps:
        o = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode:
            raise undecided('the generator does not compile with our front end:\n' + o[-3000:])
    p = run(['clang++'] + flags + ['-o', out] + objs)
    if p.returncode:
        raise undecided('the generator does not link with our front end:\n' + text(p)[-3000:])
    return out


def idl_env(go_env, scratch):
    env = go_env(scratch)
    env.update(ASAN_OPTIONS='detect_leaks=0:exitcode=97:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1',
               UBSAN_OPTIONS='exitcode=98:print_stacktrace=1:halt_on_error=1')
    return env


def generate_one(idl, main, out, env, pre=()):
    os.makedirs(out)
    p = run(list(pre) + [idl, main, out, os.path.join(out, 'desc.json')], env=env, cwd=os.path.dirname(main), timeout=300)
    return p.returncode, text(p)


def sets_for(scratch, tier, seed, repo, here, only):
    """[(name, main file)]; the definitions are written below scratch/idl."""
    res = []
    for name, d, main in FIXED:
        res.append((name, os.path.join(here, d, main)))
    for name, f in REPO_FIXED:
        to = os.path.join(repo, f)
        if name == 'fixed-simple':
            # under another name: the monitor also uses the golden code, which has this one
            d = os.path.join(scratch, 'idl', name)
            os.makedirs(d)
            to = shutil.copy(to, os.path.join(d, 'freshsimple.thrift'))
        res.append((name, to))
    n = 200 if tier == 'thorough' else 20
    for k in range(n):
        d = os.path.join(scratch, 'idl', 'q%d' % k)
        os.makedirs(d)
        fs = genidl.generate(seed, k)
        for fn, t in fs:
            with open(os.path.join(d, fn), 'w') as f:
                f.write(t)
        res.append(('q%d' % k, os.path.join(d, fs[-1][0])))
    return res


def violation(suite, name, what, case=''):
    return dict(id='%s:%s' % (suite, name), suite=suite, index=-1, what=what[:3000], case=case[:3000])


def lines_of(text):
    """The lines, whatever the order and the numbers of local variables: the front end keeps the
    entries of a map constant in no fixed order."""
    return sorted(re.sub(r'\b([a-z]+)\d+\b', r'\1', l) for l in text.split('\n'))


def go_files(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.go'):
                res[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f), encoding='utf8', errors='replace').read()
    return res


# ---------------------------------------------------------------- registration

BASE = {'bool': 'bool', 'byte': 'byte', 'i16': 'int16', 'i32': 'int32', 'i64': 'int64', 'double': 'float64', 'string': 'string',
        'binary': '[]byte', 'list': 'thrift.TList', 'set': 'thrift.TSet', 'map': 'thrift.TMap'}


def true_type(t):
    while t['k'] == 'typedef':
        t = t['of']
    return t


class Reg:
    def __init__(self, name, progs):
        self.name, self.progs = name, progs
        self.alias = {p['name']: 'g%d' % i for i, p in enumerate(progs)}
        self.svcs = {(p['name'], s['name']): (p, s) for p in progs for s in p['services']}

    def gotype(self, t):
        t = true_type(t)
        if t['k'] in BASE:
            return BASE[t['k']]
        n = self.alias[t['prog']] + '.' + publicize(t['name'])
        return n if t['k'] == 'enum' else '*' + n

    def path(self, p):
        return p['ns'].replace('.', '/') if p['ns'] else p['name']

    def functions(self, p, s):
        fs = []
        if s['extends']:
            fs += self.functions(*self.svcs[tuple(s['extends'])])
        return fs + s['functions']

    def names(self):
        """Adds the Go names the definitions ask for."""
        for p in self.progs:
            p['pkg'] = self.path(p)
            for st in p['structs'] + p['enums'] + p['services']:
                st['go'] = publicize(st['name'])
            for st in p['structs']:
                self.fields(st)
            for c in p['consts']:
                t = c['type']
                part = {'map': 'Map', 'set': 'Set', 'list': 'List', 'binary': 'String'}.get(t['k']) or publicize(t.get('name') or t['k'])
                c['go'] = part + '_' + publicize(c['name'])
            for s in p['services']:
                for f in s['functions']:
                    f['go'] = publicize(f['name'])
                    f['args']['go'] = f['go'] + 'Args'
                    self.fields(f['args'])
                    self.fields(f['throws'])

    def fields(self, st):
        for f in st['fields']:
            f['go'] = publicize(go_name(f['name']))

    def text(self):
        self.names()
        o = ['package main', '', 'import (', '\t"thrift"']
        for p in self.progs:
            o.append('\t%s "%s"' % (self.alias[p['name']], self.path(p)))
        o += [')', '', 'var _ thrift.TType']
        o += ['var _ = %s.GoUnusedProtection__' % self.alias[p['name']] for p in self.progs]
        o += ['', 'func init() {', '\ts := &gSet{Name: %s, Desc: %s,' % (json.dumps(self.name), json.dumps(json.dumps(self.progs, ensure_ascii=False), ensure_ascii=False)),
              '\t\tNew: map[string]func() interface{}{}, Enums: map[string]*gEnumCode{}, Consts: map[string]func() interface{}{}, Svcs: map[string]*gSvcCode{}}']
        hs = []
        for p in self.progs:
            a = self.alias[p['name']]
            for st in p['structs']:
                o.append('\ts.New["%s.%s"] = func() interface{} { return %s.New%s() }' % (p['name'], st['name'], a, st['go']))
            for e in p['enums']:
                vals = ', '.join('"%s": int64(%s.%s_%s)' % (n, a, e['go'], n) for n, _ in e['values'])
                o.append('\ts.Enums["%s.%s"] = &gEnumCode{From: func(t string) interface{} { return %s.From%sString(t) }, Of: func(n int64) interface{} { return %s.%s(n) }, Vals: map[string]int64{%s}}'
                         % (p['name'], e['name'], a, e['go'], a, e['go'], vals))
            for c in p['consts']:
                o.append('\ts.Consts["%s.%s"] = func() interface{} { var v %s = %s.%s; return v }' % (p['name'], c['name'], self.gotype(c['type']), a, c['go']))
            for t in p['typedefs']:
                # the alias has to be the type it stands for
                o.append('\t{ var v %s.%s; var w %s = v; _ = w }' % (a, publicize(t['name']), self.gotype(t)))
            for s in p['services']:
                h = 'h_%s_%s' % (re.sub(r'\W', '_', self.name), len(hs))
                hs.append(self.handler(h, p, s))
                o.append('\ts.Svcs["%s.%s"] = &gSvcCode{' % (p['name'], s['name']))
                o.append('\t\tProcessor: func(h *gHandler) thrift.TProcessor { var i %s.I%s = &%s{h}; return %s.New%sProcessor(i) },' % (a, s['go'], h, a, s['go']))
                o.append('\t\tClient: func(t thrift.TTransport, f thrift.TProtocolFactory) interface{} { var i %s.I%s = %s.New%sClientFactory(t, f); return i },' % (a, s['go'], a, s['go']))
                o.append('\t\tClientP: func(t thrift.TTransport, i, o thrift.TProtocol) interface{} { return %s.New%sClientProtocol(t, i, o) },' % (a, s['go']))
                o.append('\t}')
                for f in s['functions']:
                    key = '%s.%s.%s' % (p['name'], s['name'], f['name'])
                    o.append('\ts.New["%s.args"] = func() interface{} { return %s.New%sArgs() }' % (key, a, f['go']))
                    if not f['oneway']:
                        o.append('\ts.New["%s.result"] = func() interface{} { return %s.New%sResult() }' % (key, a, f['go']))
        o += ['\tgRegister(s)', '}', ''] + hs
        return '\n'.join(o) + '\n'

    def handler(self, h, p, s):
        o = ['type %s struct{ h *gHandler }' % h, '']
        for f in self.functions(p, s):
            ps = ', '.join('a%d %s' % (i, self.gotype(x['type'])) for i, x in enumerate(f['args']['fields']))
            rs = []
            if f['returns']['k'] != 'void':
                rs.append('r %s' % self.gotype(f['returns']))
            rs += ['x%d %s' % (i, self.gotype(x['type'])) for i, x in enumerate(f['throws']['fields'])]
            rs.append('err error')
            o.append('func (h *%s) %s(%s) (%s) {' % (h, f['go'], ps, ', '.join(rs)))
            o.append('\to := h.h.call("%s"%s)' % (f['name'], ''.join(', a%d' % i for i in range(len(f['args']['fields'])))))
            if f['returns']['k'] != 'void':
                o.append('\tif o.ret != nil {\n\t\tr = o.ret.(%s)\n\t}' % self.gotype(f['returns']))
            for i, x in enumerate(f['throws']['fields']):
                o.append('\tif v := o.exc[%d]; v != nil {\n\t\tx%d = v.(%s)\n\t}' % (i, i, self.gotype(x['type'])))
            o.append('\terr = o.err\n\treturn\n}\n')
        return '\n'.join(o)


# ---------------------------------------------------------------- command line clients

def build_tools(good, src, scratch, env, count, viol, tier):
    """Links the command line clients of some sets into scratch/tools, where the monitor finds them."""
    tools = os.path.join(scratch, 'tools')
    os.makedirs(tools)
    os.environ['VMON_TOOLS'] = tools
    todo, randoms = [], 0
    for name, main, out in good:
        progs, seen = json.load(open(os.path.join(out, 'desc.json'), encoding='utf8')), set()
        own = [(q, s) for q in progs for s in q['services'] if s['functions']]
        if name.startswith('q'):
            if not own or randoms >= (40 if tier == 'thorough' else 6):
                continue
            randoms += 1
        for q, s in own:
            if (q['name'], s['name']) in seen:
                continue
            seen.add((q['name'], s['name']))
            pkg = Reg(name, []).path(q)
            todo.append((name, q['name'], s['name'], './%s/%s' % (pkg, s['name'])))
    todo.sort(key=lambda x: x[0].startswith('q'))

    def link(x):
        name, prog, svc, pkg = x
        return run(['go', 'build', '-ldflags=-s -w', '-o', os.path.join(tools, '%s.%s.%s' % (name, prog, svc)), pkg], cwd=src, env=env)
    with ThreadPoolExecutor(8) as ex:
        for x, p in zip(todo, ex.map(link, todo)):
            if p.returncode:
                viol.append(violation('tool', '.'.join(x[:3]), 'there is no command line client of service %s, or it does not build: %s' % (x[2], text(p)[-1500:])))
            else:
                count['tools_built'] = count.get('tools_built', 0) + 1


# ---------------------------------------------------------------- all of it

def prepare(prop, tier, seed, scratch, repo, here, go_env, undecided):
    """Returns (name of the monitor package, results, violations of C29)."""
    judge = prop == 'C29'
    viol, count = [], {}
    idl = build_generator(scratch, repo, here, judge, undecided)
    plain = build_generator(scratch, repo, here, False, undecided) if judge else idl
    env = idl_env(go_env, scratch)
    sets = sets_for(scratch, tier, seed, repo, here, None)
    gen = os.path.join(scratch, 'gen')

    def one(x):
        name, main = x
        vs, out = [], os.path.join(gen, name)
        if not judge:
            try:
                rc, o = generate_one(idl, main, out, env)
            except subprocess.TimeoutExpired:
                rc, o = -9, 'no end'
            return rc, o, vs
        try:
            rc, o = generate_one(idl, main, out, env)
        except subprocess.TimeoutExpired:
            return -9, 'no end', [violation('generate', name, 'the generator did not finish within 300 s')]
        if rc == 3:
            return rc, o, vs
        if rc != 0 or 'runtime error' in o or 'Sanitizer' in o:
            vs.append(violation('generate', name, 'the generator failed (exit %d): %s' % (rc, o[-2500:]), open(main).read()))
            return rc or 1, o, vs
        # again, with other heap contents and addresses: nothing may depend on uninitialised memory
        out2 = out + '-again'
        rc2, o2 = generate_one(plain, main, out2, dict(env, MALLOC_PERTURB_='165'))
        a, b = go_files(out), go_files(out2)
        if rc2 != 0:
            vs.append(violation('again', name, 'the generator failed when run again (exit %d): %s' % (rc2, o2[-2500:])))
        elif sorted(a) != sorted(b):
            vs.append(violation('again', name, 'the generator wrote other files when run again: %s and %s' % (sorted(a), sorted(b))))
        else:
            for f in sorted(a):
                x, y = lines_of(a[f]), lines_of(b[f])
                if a[f] != b[f] and x != y:
                    d = sorted(set(x) ^ set(y))
                    vs.append(violation('again', name, 'the generator wrote something else when run again, in %s: %s' % (f, d[:6])))
                    break
        shutil.rmtree(out2, ignore_errors=True)
        return rc, o, vs

    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, sets))
    src = os.path.join(scratch, 'gopath', 'src')
    good, owner = [], {}
    for (name, main), (rc, o, vs) in zip(sets, done):
        viol += vs
        count['definition_sets'] = count.get('definition_sets', 0) + 1
        if rc == 3:
            raise undecided('our front end does not accept %s: %s' % (name, o))
        if rc != 0:
            continue
        out = os.path.join(gen, name)
        good.append((name, main, out))
        for d, _, fs in os.walk(os.path.join(out, 'gen-go')):
            rel = os.path.relpath(d, os.path.join(out, 'gen-go'))
            for f in fs:
                to = os.path.join(src, rel)
                os.makedirs(to, exist_ok=True)
                if not os.path.islink(to):
                    shutil.copy(os.path.join(d, f), os.path.join(to, f))
                owner[rel] = name
                count['files_generated'] = count.get('files_generated', 0) + 1
    if judge and shutil.which('valgrind'):
        n = 12 if tier == 'thorough' else 2
        vg = [x for x in sets if x[0] == 'fixed-features'] + [x for x in sets if x[0].startswith('q')][:n]

        def under_valgrind(x):
            out = os.path.join(gen, x[0] + '-vg')
            rc, o = generate_one(plain, x[1], out, env, ['valgrind', '-q', '--error-exitcode=96', '--leak-check=no', '--track-origins=yes'])
            shutil.rmtree(out, ignore_errors=True)
            return (rc, o)
        with ThreadPoolExecutor(4) as ex:
            for x, (rc, o) in zip(vg, ex.map(under_valgrind, vg)):
                count['runs_under_memcheck'] = count.get('runs_under_memcheck', 0) + 1
                if rc == 96:
                    viol.append(violation('memcheck', x[0], 'the generator uses memory that it did not initialise or own: ' + o[-2500:]))
    # compile everything
    env = go_env(scratch)
    pk = sorted(owner)
    p = run(['go', 'build', '-gcflags=-e'] + ['./' + x for x in pk], cwd=src, env=env) if pk else None
    bad = {}
    if p is not None and p.returncode:
        cur = None
        for line in text(p).splitlines():
            m = re.match(r'# (\S+)', line)
            if m:
                cur = m.group(1)
                continue
            m = re.match(r'(?:\./)?(\S+?)/[^/\s]+\.go:\d+', line)
            k = cur if cur in owner else (m.group(1) if m and m.group(1) in owner else None)
            if k is None:
                k = cur or '?'
            bad.setdefault(k, []).append(line)
    count['packages_compiled'] = len(pk) - len(bad)
    badsets = set()
    for k, lines in sorted(bad.items()):
        if k not in owner:
            raise undecided('go build of the generated packages failed:\n' + '\n'.join(lines[:20]))
        badsets.add(owner[k])
        viol.append(violation('compile', owner[k] + '/' + k, 'the generated package does not compile: ' + ' | '.join(lines[:6])))
    # the monitor with the registration files
    mon = os.path.join(src, 'gvmon')
    os.makedirs(mon)
    for f in glob.glob(os.path.join(here, 'go/src/vmon/*.go')):
        shutil.copy(f, mon)
    for i, (name, main, out) in enumerate(good):
        if name in badsets:
            continue
        progs = json.load(open(os.path.join(out, 'desc.json'), encoding='utf8'))
        seen, uniq = set(), []
        for q in progs:
            if q['name'] not in seen:
                seen.add(q['name'])
                uniq.append(q)
        with open(os.path.join(mon, 'reg_%s.go' % re.sub(r'\W', '_', name)), 'w') as f:
            f.write(Reg(name, uniq).text())
        count['sets_monitored'] = count.get('sets_monitored', 0) + 1
    for _ in range(3):
        p = run(['go', 'vet', '-vettool=/bin/true', '.'], cwd=mon, env=env) if False else run(['go', 'build', '-gcflags=-e', '-o', os.path.join(scratch, 'gvmon'), '.'], cwd=mon, env=env)
        if p.returncode == 0:
            break
        errs = {}
        for line in text(p).splitlines():
            m = re.match(r'\S*?(reg_\w+)\.go:(\d+)', line)
            if m:
                errs.setdefault(m.group(1), []).append(line)
        if not errs:
            raise undecided('the monitor does not build against the current tree:\n' + text(p)[-3000:])
        for r, lines in sorted(errs.items()):
            os.remove(os.path.join(mon, r + '.go'))
            count['sets_monitored'] -= 1
            viol.append(violation('api', r[4:], 'what was generated does not have the names or types the definition gives: ' + ' | '.join(lines[:6])))
    else:
        raise undecided('the monitor does not build against the generated code')
    if prop == 'C32':
        build_tools([g for g in good if os.path.exists(os.path.join(mon, 'reg_%s.go' % re.sub(r'\W', '_', g[0])))], src, scratch, env, count, viol, tier)
    if count.get('sets_monitored', 0) < 3 and not (judge and viol):
        raise undecided('hardly any generated package can be used: ' + '; '.join(v['what'][:300] for v in viol[:3]))
    shutil.rmtree(gen, ignore_errors=True)
    res = dict(cases=count.get('definition_sets', 0), counters=count, distinct=['set:' + n for n, _ in sets], distinct_n=len(sets), samples=[], violations=[])
    return os.path.join(scratch, 'gvmon'), [res], (viol if judge else [v for v in viol if v['suite'] == 'tool'])
