"""Shared machinery of the checks: building the harness, running TLC, running
requests on the real code, judging observations with the specification,
reporting. Nothing here knows what is right; that is in spec/*.tla."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8


class ToolError(Exception):
    pass


class Work:
    """scratch directory of one run"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vtdconf.')
        self.n = 0
        self.lock = threading.Lock()

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, '%d_%s' % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def go_env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    e['GOTOOLCHAIN'] = 'local'
    e['GOPROXY'] = 'off'
    e['GOFLAGS'] = '-mod=readonly'
    e.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e


def overlay(work):
    """The repository builds its character tables, 70 MB, for every parser and
    navigator. For bulk runs the same tables are built once per process."""
    d = os.path.join(REPO, 'vtdxml', 'common')
    for name in sorted(os.listdir(d)):
        if not name.endswith('.go') or name.endswith('_test.go'):
            continue
        with open(os.path.join(d, name)) as f:
            t = f.read()
        t, n = re.subn(r'(?m)^func NewXmlChar\(\) \*XmlChar \{', 'func newXmlCharOnce() *XmlChar {', t)
        if n == 1:
            src, ov = os.path.join(work.dir, 'xmlchar.go'), os.path.join(work.dir, 'overlay.json')
            with open(src, 'w') as f:
                f.write(t + '\nvar onceXmlChar = newXmlCharOnce()\n\nfunc NewXmlChar() *XmlChar { return onceXmlChar }\n')
            with open(ov, 'w') as f:
                json.dump({'Replace': {os.path.join(d, name): src}}, f)
            return ov
    return None


def build(work, race=False, fast=False):
    """the harness, with the hooks if they compile (they are needed for the
    location cache only)"""
    out = os.path.join(work.dir, 'conf-race' if race else 'conf-fast' if fast else 'conf')
    src = os.path.join(VERIF, 'harness')
    extra = []
    if fast:
        ov = overlay(work)
        if ov is None:
            return None
        extra += ['-overlay', ov]
    if REPO != '/repo':
        mf = os.path.join(work.dir, 'alt.mod')
        with open(os.path.join(src, 'go.mod')) as f:
            t = f.read().replace('=> /repo', '=> ' + REPO)
        with open(mf, 'w') as f:
            f.write(t)
        shutil.copy(os.path.join(src, 'go.sum'), os.path.join(work.dir, 'alt.sum'))
        extra += ['-modfile=' + mf]
    err = ''
    for tags in (['-tags', 'verif'], []):
        cmd = ['go', 'build'] + extra + tags + (['-race'] if race else []) + ['-o', out, '.']
        r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
        if r.returncode == 0:
            return out
        err = r.stderr
    if fast:
        return None
    raise ToolError('go build failed: ' + err[-2000:])


def pool(work, conf, reqs, n=NPROC, limit=30, fresh=False):
    """observations of requests, in order; fresh: each in a process of its own"""
    p = work.path('req')
    with open(p, 'w') as f:
        for r in reqs:
            f.write(json.dumps(r, separators=(',', ':')))
            f.write('\n')
    with open(p) as fi:
        r = subprocess.run([conf, 'pool', str(n), str(limit)] + (['fresh'] if fresh else []), stdin=fi, capture_output=True)
    os.remove(p)
    if r.returncode != 0:
        raise ToolError('harness failed: ' + r.stderr.decode()[-2000:])
    out = [json.loads(l) for l in r.stdout.splitlines()]
    if len(out) != len(reqs):
        raise ToolError('harness answered %d of %d requests' % (len(out), len(reqs)))
    for q, o in zip(reqs, out):
        if o.get('v') == 'harness':
            raise ToolError('harness: %s for %s' % (o.get('msg'), json.dumps(q)[:300]))
    return out


def tlc(work, module, cfg=None, env=None, args=(), timeout=850, workers=1, heap='3g', ok=(0,)):
    """runs TLC and returns (JSON lines printed with PrintT(ToJson(..)), log)"""
    meta = work.path('meta')
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xss16m', '-Xmx' + heap, '-Djava.io.tmpdir=' + work.dir, '-cp', TLAJAR, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    out, log = [], []
    for line in r.stdout.splitlines():
        if line.startswith('"{') or line.startswith('"['):
            out.append(json.loads(json.loads(line)))
        else:
            log.append(line)
    if r.returncode not in ok:
        raise ToolError('TLC failed on %s: %s' % (module, '\n'.join(log)[-3000:]))
    return out, '\n'.join(log)


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc_counts(log):
    m = STATES.findall(log.replace(',', ''))
    if not m:
        m = re.findall(r'(\d+) states generated (\d+) distinct states found', log.replace(',', ''))
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def parallel(fns):
    """runs functions in threads, returns their results, raises the first error"""
    res, err = [None] * len(fns), []

    def run(i):
        try:
            res[i] = fns[i]()
        except Exception as e:  # noqa: reported below
            err.append(e)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return res


LINE = re.compile(r'Line number: (\d+)')


def doc_record(r, o):
    """one line of a trace: what was given and what was observed"""
    t = {'base': r.get('base', 0), 'ns': r.get('ns', False), 'lc': r.get('lc', 3), 'v': o['v']}
    if 'r' in r:
        t['r'] = r['r']
    else:
        t['d'] = r['d']
    if o['v'] == 'err':
        t['kinds'] = o.get('kinds') or []
        m = LINE.search(o.get('line') or '')
        t['lineno'] = int(m.group(1)) if m else 0
    if 'tok' in o:
        t['obstok'] = o['tok']
    if 'lcs' in o:
        t['obslcs'] = o['lcs']
    if 'walk' in o:
        t['obswalk'], t['walk'] = o['walk'], r['walk']
    if 'strb' in o:
        t['obsstr'], t['obsraw'] = o['strb'], o['rawb']
    if 'rng' in o:
        t['rng'], t['obsrng'], t['obsrngr'] = r['rng'], o['rng'], o['rngr']
    if 'strr' in o:
        t['obsstrr'], t['obsrawr'] = o['strr'], o['rawr']
    if 'n' in o:
        t['obsn'], t['obscur'] = o['n'], o['cur']
    if o['v'] == 'ok' and 'tok' in o:
        t['obsenc'] = o['enc']
    if o.get('printed'):
        t['printed'] = True
    if o.get('odd'):
        t['odd'] = o['odd']
    if o.get('mut'):
        t['mut'] = True
    return t


def judge(work, module, records, nproc=NPROC, timeout=850):
    """lets the specification judge trace records: list of dicts (i, ...)"""
    if not records:
        return [], 0
    nproc = max(1, min(nproc, len(records) // 40 + 1))
    # deal by size, so that the processes end together
    order = sorted(range(len(records)), key=lambda i: -len(json.dumps(records[i])) if len(records) < 20000 else i)
    parts = [order[k::nproc] for k in range(nproc)]

    def one(part):
        p = work.path('trace')
        with open(p, 'w') as f:
            for i in part:
                f.write(json.dumps(records[i], separators=(',', ':')))
                f.write('\n')
        out, log = tlc(work, module, env={'TRACE': p}, timeout=timeout)
        os.remove(p)
        st = tlc_counts(log)[0]
        if st != len(part) + 1:
            raise ToolError('%s read %d of %d records: %s' % (module, st - 1, len(part), log[-1500:]))
        for d in out:
            d['i'] = part[d['i'] - 1]
        return out
    res = parallel([lambda part=part: one(part) for part in parts])
    return sorted((d for r in res for d in r), key=lambda d: d['i']), len(records)


def rng(tag):
    return random.Random('%s/%d' % (tag, SEED))


def stratified(items, n, tag):
    """at most n of the generated items, the kinds (k) as evenly as possible"""
    r = rng(tag)
    by = {}
    for it in items:
        by.setdefault(json.dumps(it.get('k')), []).append(it)
    keys = sorted(by)
    r.shuffle(keys)
    for k in keys:
        r.shuffle(by[k])
    out, round_ = [], 0
    while len(out) < n:
        took = False
        for k in keys:
            if round_ < len(by[k]):
                out.append(by[k][round_])
                took = True
                if len(out) >= n:
                    break
        if not took:
            break
        round_ += 1
    return out


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, 'known-findings.json')) as f:
        for e in json.load(f)['findings']:
            if e['property'] == prop:
                out.append(e)
    return out
