#!/usr/bin/env python3
"""Run the check of one property.

    check.py C07                    quick (or $VERIF_TIER), seed $VERIF_SEED
    check.py C07 --tier thorough
    check.py C07 --replay FILE      run one recorded case again

Builds the monitor (go/src/vmon) together with the library in $VERIF_REPO (default /repo) in a scratch
GOPATH, runs it in several worker processes, merges what they observed, compares violations with
known_findings.txt, writes evidence/<id>.json and prints the verdict.
Exit 0: held on everything observed; 1: violation; 2: the check itself could not decide.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import config  # noqa: E402

GOROOT = '/opt/veriftools/go1.27.3'
REPO = os.environ.get('VERIF_REPO', '/repo')


class Undecided(Exception):
    pass


def go_env(scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('GO') or k.startswith('CGO'):
            del env[k]
    cache = os.environ.get('VERIF_GOCACHE') or os.path.join(HERE, '.gocache')
    env.update(GOROOT=GOROOT, GOPATH=':'.join([os.path.join(scratch, 'gopath'), os.path.join(HERE, 'go')]),
               GO111MODULE='off', GOENV='off', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOWORK='off',
               GOCACHE=cache, GOTMPDIR=scratch, PATH=GOROOT + '/bin:' + env.get('PATH', '/usr/bin:/bin'),
               HOME=scratch)
    os.makedirs(cache, exist_ok=True)
    return env


def link_sources(scratch):
    """The library and the generated example, as the build script lays them out, in a scratch GOPATH."""
    src = os.path.join(scratch, 'gopath', 'src')
    os.makedirs(src)
    lib = os.path.join(REPO, 'lib/go/src')
    for d in sorted(os.listdir(lib)):
        if os.path.isdir(os.path.join(lib, d)):
            os.symlink(os.path.join(lib, d), os.path.join(src, d))
    simple = os.path.join(src, 'simple')
    os.makedirs(simple)
    gold = os.path.join(REPO, 'tests/generation/golden/gen-go/simple')
    for f in sorted(os.listdir(gold)):
        if f.endswith('.go'):
            shutil.copy(os.path.join(gold, f), os.path.join(simple, f))


def build(scratch, race):
    out = os.path.join(scratch, 'vmon-race' if race else 'vmon')
    cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['vmon']
    p = subprocess.run(cmd, cwd=os.path.join(HERE, 'go/src/vmon'), env=go_env(scratch), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Undecided('the monitor does not build against the current tree:\n' + p.stdout[-4000:])
    return out


RACE = re.compile(r'WARNING: DATA RACE.*?(?=\n==================)', re.S)


def race_key(block):
    """The pair of innermost library frames, without line numbers."""
    fr = []
    for part in re.split(r'\n\s*\n', block):
        if not re.search(r'(Read|Write|read|write) (at|of size)', part) and 'Previous' not in part:
            continue
        fs = re.findall(r'^\s+([\w./*()\[\]-]+)\(\)\s*$', part, re.M)
        lib = [f for f in fs if f.startswith('thrift.') or f.startswith('simple.')]
        fr.append(lib[0] if lib else (fs[0] if fs else '?'))
    return ' / '.join(sorted(fr))


def run_workers(binary, prop, tier, seed, shards, scratch, env_extra, budget, only=None):
    ws = []
    for s in range(shards):
        out = os.path.join(scratch, 'out%d.json' % s)
        st = os.path.join(scratch, 'status%d' % s)
        cmd = [binary, '-prop', prop, '-seed', str(seed), '-tier', tier, '-out', out, '-status', st,
               '-shard', str(s), '-of', str(shards)]
        if only:
            cmd += ['-only', only[0], '-index', str(only[1])]
        env = dict(os.environ)
        env.update(GOTRACEBACK='all', GOMAXPROCS=str(env_extra.get('GOMAXPROCS', 4)))
        if env_extra.get('race'):
            env['GORACE'] = 'halt_on_error=0 exitcode=0 history_size=3 log_path=%s/race%d' % (scratch, s)
        err = open(os.path.join(scratch, 'err%d' % s), 'w+')
        wd = os.path.join(scratch, 'wd%d' % s)
        os.makedirs(wd)
        env['TMPDIR'] = wd
        ws.append((s, subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=wd, start_new_session=True), out, st, err))
    end = time.time() + budget
    res, viol = [], []
    for s, p, out, st, err in ws:
        timed_out = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, 9)
            p.wait()
        cur = ''
        if os.path.exists(st):
            cur = open(st, 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
        err.flush()
        err.seek(0)
        text = err.read()
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                r = None
        if timed_out:
            raise Undecided('worker %d did not finish within %d s (at case %s)' % (s, budget, cur))
        if r is None or p.returncode != 0:
            if p.returncode == 3 or not cur:
                raise Undecided('worker %d ended with %s: %s' % (s, p.returncode, text[-2000:]))
            suite, _, idx = cur.rpartition('#')
            m = re.search(r'^(fatal error: .*|panic: .*|runtime: .*|SIG\w+.*|.*signal.*)$', text, re.M)
            what = 'the process died (exit %s) during this case: %s' % (p.returncode, m.group(1) if m else text[:300])
            frames = [l.strip() for l in text.splitlines() if re.match(r'\s*(thrift|simple)[.]', l) or '/thrift/' in l][:14]
            viol.append(dict(id=cur, suite=suite, index=int(idx or -1), what=what, case=' | '.join(frames)))
        if r is not None:
            res.append(r)
            viol += r['violations'] or []
    races = {}
    if env_extra.get('race'):
        for f in sorted(os.listdir(scratch)):
            if f.startswith('race'):
                for b in RACE.findall(open(os.path.join(scratch, f), errors='replace').read() + '\n=================='):
                    races.setdefault(race_key(b), b)
    for k, b in sorted(races.items()):
        viol.append(dict(id='race:' + k, suite='race', index=-1, what='data race between ' + k, case=b[:5000]))
    return res, viol


def merge(results):
    m = dict(cases=0, counters={}, samples=[], distinct=set(), distinct_n=0)
    for r in results:
        m['cases'] += r['cases']
        m['distinct'].update(r['distinct'] or [])
        m['distinct_n'] += r['distinct_n']
        for k, v in (r['counters'] or {}).items():
            if k.startswith('max_'):
                m['counters'][k] = max(m['counters'].get(k, 0), v)
            else:
                m['counters'][k] = m['counters'].get(k, 0) + v
        for s in r['samples'] or []:
            k = s.split(':')[0]
            if sum(1 for x in m['samples'] if x.split(':')[0] == k) < 1 and len(m['samples']) < 12:
                m['samples'].append(s)
    return m


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier = rp['seed'], rp['tier']
        if rp['index'] >= 0 and rp['suite'] != 'race':
            only = (rp['suite'], rp['index'])
    cfg = config.PROPS[a.prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vmon-')
    os.chmod(scratch, 0o755)
    try:
        results, viol = [], []
        link_sources(scratch)
        for e in cfg['engines']:
            race = e == 'race'
            if race and any(v['id'] not in known_findings(a.prop) for v in viol):
                break  # decided
            if e == 'generated':
                import gencheck
                binary, r, v = gencheck.prepare(a.prop, tier, seed, scratch, REPO, HERE, go_env, Undecided)
                results += r
                viol += v
            else:
                binary = build(scratch, race)
            sub = os.path.join(scratch, 'run-' + e)
            os.makedirs(sub)
            shards = 1 if only else cfg.get('shards', 8)
            budget = 780 - (time.time() - t0) if tier == 'quick' else 6 * 3600
            r, v = run_workers(binary, a.prop, tier, seed, shards, sub, dict(race=race, GOMAXPROCS=cfg.get('gomaxprocs', 4)), budget, only)
            results += r
            viol += v
        m = merge(results)
        known = known_findings(a.prop)
        seen_known, fresh = {}, []
        for v in viol:
            if v['id'] in known:
                seen_known[v['id']] = known[v['id']]
            else:
                fresh.append(v)
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s case=%s %s' % (a.prop, k, seen_known[k]))
        if not fresh and not only and m['cases'] < cfg.get('min_cases', 1):
            raise Undecided('only %d cases ran; the monitors observed too little to decide' % m['cases'])
        for k in ([] if only or fresh else cfg.get('need', [])):
            if m['counters'].get(k, 0) == 0:
                raise Undecided('the monitors never observed "%s"' % k)
        if not a.replay and not os.environ.get('VERIF_NOEVIDENCE'):
            cov = dict(evaluations=m['cases'], distinct_nontrivial=len(m['distinct']), rule=cfg['rule'],
                       samples=m['samples'] or ['(none)'], observed=m['counters'], known_findings_seen=sorted(seen_known),
                       violations=[dict(id=v['id'], what=v['what'][:300]) for v in fresh[:20]])
            ev = dict(property=a.prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
                      wall_s=round(time.time() - t0, 2))
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
            shown = set()
            for v in fresh:
                if v['suite'] in shown and len(shown) > 0:
                    continue
                shown.add(v['suite'])
                name = '%s-%s.json' % (a.prop, hashlib.sha1(v['id'].encode()).hexdigest()[:10])
                path = os.path.join(HERE, 'replay', name)
                with open(path, 'w') as f:
                    json.dump(dict(property=a.prop, seed=seed, tier=tier, suite=v['suite'], index=v['index'], id=v['id'],
                                   what=v['what'], case=v['case'],
                                   again='python3 check.py %s --replay %s' % (a.prop, path)), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (a.prop, path))
                print('  %s: %s' % (v['id'], v['what'][:1500]))
                if v['case']:
                    print('  case: %s' % v['case'][:1500])
            print('%d violating cases in all, %d cases run' % (len(fresh), m['cases']))
            return 1
        print('held: property=%s %d cases, %d distinct, %s, %.1f s' % (
            a.prop, m['cases'], len(m['distinct']), ' '.join('%s=%d' % kv for kv in sorted(m['counters'].items())), time.time() - t0))
        return 0
    except Undecided as e:
        print('UNDECIDED property=%s: %s' % (a.prop, e))
        return 2
    finally:
        if a.keep:
            print('kept', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
