"""The checks, one per property. What is generated and what is judged comes
from spec/*.tla; here is which modules decide which property, with what budget."""
import json, os, random, re, subprocess, sys, time
from core import *

CRASH = {'panic', 'hang', 'crash', 'memory'}
LEVELS = {}


class Run:
    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.known, self.notes = [], [], {}, {}
        self.assumptions = []
        self.conf = build(work)
        self.fast = build(work, fast=True)
        self.notes['built_for_bulk_runs'] = self.fast is not None

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def model(self, log):
        st, tr = tlc_counts(log)
        self.states += st
        self.transitions += tr

    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x)

    def violation(self, what, detail):
        """detail must contain all that replay needs"""
        if len(self.viol) < 1000:
            self.viol.append((what, detail))

    def finding(self, fid, what):
        if fid in {e['id'] for e in known_findings(self.prop)}:
            self.known[fid] = self.known.get(fid, 0) + 1
            return True
        return False

    def finish(self, wall):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none']}
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
              'assumptions': ['TLC, the Go toolchain and the harness in /verif/harness are trusted',
                              'behaviour outside the generated inputs is not covered'] + self.assumptions,
              'wall_s': round(wall, 1), 'violations': len(self.viol)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for e in known_findings(self.prop):
            if e['id'] in self.known:
                print('KNOWN-FINDING: property=%s %s (%d times)' % (self.prop, e['what'], self.known[e['id']]))
        if self.traces == 0 and not self.viol:
            print('TOOL ERROR: nothing was checked')
            return 2
        seen = {}
        for what, detail in self.viol:
            seen.setdefault(what, []).append(detail)
        for k, what in enumerate(sorted(seen, key=lambda w: -len(seen[w]))[:5]):
            detail = min(seen[what], key=lambda d: len(json.dumps(d)))
            p = os.path.join(VERIF, 'evidence', 'replay-%s-%d.json' % (self.prop, k))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'detail': detail}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('  %s (%d cases); %s' % (what, len(seen[what]), json.dumps(detail)[:900]))
        print('%s %s: %d states, %d transitions, %d traces validated, %d violations, %.0f s %s' %
              (self.prop, TIER, self.states, self.transitions, self.traces, len(self.viol), wall,
               json.dumps(self.notes)))
        return 1 if self.viol else 0


# ---------------------------------------------------------------------------
# documents

def gen_theme(run, theme, n, big=None, want=None, show=0, all_of_it=False):
    """documents of the transition cover of a theme (XmlGen), at most n; all_of_it:
    and all of them"""
    b = THOROUGH if big is None else big
    items, log = tlc(run.work, 'XmlGen', env={'THEME': theme, 'BIG': 1 if b else 0, 'TOKS': show}, heap='6g' if b else '3g')
    run.model(log)
    run.count('generated_by_model', len(items))
    if want is not None:
        items = [it for it in items if it['x'] == (1 if want else 0)]
    some = stratified(items, n, theme)
    return (some, items) if all_of_it else some


TOKENS, ERRORS = 1, 2


def screen(run, items, show=0):
    """runs documents for which the specification said what should come out, and
    returns those for which something else did"""
    items = [it for it in items if it['d'] and it['x'] < 2]
    r = rng('screen' + run.prop)
    if not run.fast:
        items = stratified(items, 4000, 'screen')
    ds = [{'d': it['d'], 'ns': it['ns'], 'lc': r.choice((3, 5))} for it in items]
    size = 150
    obs = pool(run.work, run.fast or run.conf, [{'op': 'many', 'ds': ds[i:i + size], 'tok': show} for i in range(0, len(ds), size)])
    out = []
    for b, o in enumerate(obs):
        part = items[b * size:b * size + size]
        if o['v'] != 'ok':
            out += [] if o['v'] == 'skipped' else part
            continue
        for k, it in enumerate(part):
            if (o['x'][k] != str(it['x']) or show == TOKENS and it['x'] == 1 and not same_tokens(o['t'][k], it['t'])
                    or show == ERRORS and it['x'] == 0 and not same_error(o['e'][k], it['e'])):
                out.append(it)
        run.traces += len(part)
    run.count('documents_screened', len(items))
    run.count('odd', len(out))
    return out


# as in XmlObs.tla
COMBOS = [{'parse'}, {'eof'}, {'entity'}, {'encoding'}, {'internal', 'eof'}, {'internal', 'parse'}, {'parse', 'eof'}, {'parse', 'entity'}, {'parse', 'encoding'}]


def same_error(obs, exp):
    m = LINE.search(obs['line'] or '')
    return set(obs['kinds'] or []) in [COMBOS[k - 1] for k in exp['kinds']] and (not m or exp['lo'] <= int(m.group(1)) <= exp['hi'])


def same_tokens(obs, exp):
    """offset -1: anywhere"""
    return obs is not None and len(obs) == len(exp) and all(a == e or e[2] == -1 and a[:2] == e[:2] and a[3] == e[3] for a, e in zip(obs, exp))


def gen_random(run, theme, n, mut, ns=50, win=0):
    """documents of the random source, to be judged by the specification"""
    if n == 0:
        return []
    seed = rng('gen-%s-%s-%d' % (run.prop, theme, mut)).randrange(1 << 40)
    r = subprocess.run([run.conf, 'gen', '-theme', theme, '-n', str(n), '-seed', str(seed), '-mut', str(mut),
                        '-ns', str(ns), '-win', str(win)], capture_output=True)
    if r.returncode != 0:
        raise ToolError('conf gen: ' + r.stderr.decode()[-500:])
    return [json.loads(l) for l in r.stdout.splitlines()]


def as_requests(run, items, **extra):
    r = rng('lc' + run.prop)
    out = []
    for it in items:
        q = {'op': 'doc', 'ns': it.get('ns', False), 'lc': it.get('lc') or r.choice((3, 5)), 'base': it.get('base', 0)}
        for k in ('d', 'r', 'pre', 'post', 'pren', 'posn', 'fill', 'win', 'walk', 'rng'):
            if k in it:
                q[k] = it[k]
        q.update(extra)
        if 'd' in q and not q['d']:
            continue
        out.append(q)
    return out


def dedupe(reqs):
    seen, out = set(), []
    for q in reqs:
        k = json.dumps(q, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(q)
    return out


def show(q):
    if 'r' in q:
        return 'runs %s' % json.dumps(q['r'])[:200]
    t = bytes(q['d']).decode('utf-8', 'backslashreplace')
    if 'pre' in q or 'post' in q:
        return '%r in window after %r before %r' % (t, bytes(q.get('pre', [])), bytes(q.get('post', [])))
    return t


def judge_docs(run, reqs, keep, dedup=True):
    """runs documents, lets XmlTrace judge them and reports the differences that
    keep(kind, detail, diff) says concern the property"""
    if dedup:
        reqs = dedupe(reqs)
    rng('order').shuffle(reqs)
    some = len(reqs) if not run.fast else 150
    obs = pool(run.work, run.conf, reqs[:some]) + pool(run.work, run.fast or run.conf, reqs[some:])
    pairs = [(q, o) for q, o in zip(reqs, obs) if o['v'] != 'skipped']
    run.count('documents', len(pairs))
    run.count('accepted_by_code', sum(o['v'] == 'ok' for _, o in pairs))
    recs = [doc_record(q, o) for q, o in pairs]
    diffs, n = judge(run.work, 'XmlTrace', recs)
    run.traces += n
    r = rng('sample')
    for q, o in r.sample(pairs, min(4, len(pairs))):
        run.sample({'document': show(q), 'ns': q['ns'], 'observed': o['v']})
    for d in diffs:
        q, o = pairs[d['i']]
        for kind, detail in d['diffs']:
            if keep(kind, detail, d):
                if kind == 'crlf' and run.finding('crlf', ''):
                    continue
                tag = detail if isinstance(detail, str) and len(detail) < 60 else ''
                if kind in ('rejected', 'accepted') or kind in CRASH:
                    tag = d['why'] or d['mode']
                run.violation('%s %s' % (kind, tag),
                              {'document': show(q), 'request': q, 'observed': slim(o), 'kind': kind, 'specification': detail})
    return pairs


def slim(o):
    return {k: v for k, v in o.items() if k in ('v', 'kinds', 'line', 'msg')}


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def gen_module(run, module, env, n, want, show):
    items, log = tlc(run.work, module, env=dict(env, BIG=1 if THOROUGH else 0, TOKS=show), heap='6g' if THOROUGH else '3g')
    run.model(log)
    run.count('generated_by_model', len(items))
    if want is not None:
        items = [it for it in items if it['x'] == (1 if want else 0)]
    return stratified(items, n, module + json.dumps(env)), items


def edits(*groups):
    """documents one edit away from well-formed ones"""
    return [('EditGen', {'GROUP': g}) for g in groups]


LONG = ('tag', 'attr', 'ns', 'url', 'ref', 'text', 'decl')


def gen_long(run, groups, n):
    """documents with long runs in them (LongGen), at most n of each group"""
    def one(g):
        items, log = tlc(run.work, 'LongGen', env={'GROUP': g, 'BIG': 1 if THOROUGH else 0})
        run.model(log)
        run.count('generated_by_model', len(items))
        return stratified(items, n, 'long' + g)
    return [it for g in parallel([lambda g=g: one(g) for g in groups]) for it in g]


EDITS = ('tag', 'misc', 'ref', 'decl', 'enc', 'utf8', 'ns')


def counts(run, fams, n):
    """start tags with many attributes and declarations (LimitGen)"""
    return stratified([it for it in gen_limits(run, ('count',)) if it['k'][0] in fams and (THOROUGH or it['k'][1] <= 300)], n, 'counts')


def themed(run, themes, rand, keep, want=None, show=None, mods=(), long=(), many=(), **extra):
    """themes: [(theme, quick n, thorough n)], rand: [(theme, mut, quick n, thorough n, {..})];
    every document of the themes is screened, some are judged in full"""
    if show is None:
        show = TOKENS if extra.get('tok') else 0
    gens = parallel([lambda t=t: gen_theme(run, t[0], scale(t[1], t[2]), want=want, show=show, all_of_it=True) for t in themes] +
                    [lambda m=m: gen_module(run, m[0], m[1], scale(60, 600), want, show) for m in mods])
    odd = screen(run, [it for g in gens for it in g[1]], show)
    items = [it for g in gens for it in g[0]] + rng('odd').sample(odd, min(len(odd), 400))
    if many:
        items += counts(run, many, scale(150, 1000))
    if long:
        items += gen_long(run, long[0], scale(long[1], long[2]))
    for t in rand:
        items += gen_random(run, t[0], scale(t[2], t[3]), t[1], **(t[4] if len(t) > 4 else {}))
    reqs = as_requests(run, items, **extra)
    judge_docs(run, reqs, keep)


VERDICT = {'accepted', 'rejected'} | CRASH


def verdict(kind, detail, d):
    return kind in VERDICT


def token_of(types):
    """keeps verdicts, and token differences at tokens of these types"""
    def keep(kind, detail, d):
        if kind == 'tokens':
            if detail[0] == 'length':
                return True
            return detail[1][0] in types or detail[2][0] in types
        return kind in VERDICT or kind == 'tokerr'
    return keep


def c01(run):
    themed(run, [('core', 2500, 12000), ('prolog', 800, 6000), ('attr', 800, 8000), ('tags', 600, 6000), ('utf8', 500, 4000)],
           [('core', 0, 900, 20000), ('deep', 0, 400, 10000), ('utf8', 0, 300, 6000), ('decl', 0, 250, 5000), ('ns', 0, 300, 8000), ('delim', 0, 300, 6000), ('ref', 0, 250, 5000)],
           lambda kind, detail, d: d['acc'] and (kind == 'rejected' or kind in CRASH), want=True, mods=edits(*EDITS), long=(LONG, 130, 2500))


def c02(run):
    themed(run, [('core', 2500, 12000), ('prolog', 1200, 6000), ('tags', 1000, 6000), ('attr', 500, 8000), ('utf8', 500, 4000)],
           [('core', 100, 1000, 25000), ('deep', 100, 400, 10000), ('utf8', 50, 300, 6000), ('bytes', 0, 300, 5000), ('decl', 100, 300, 5000), ('delim', 100, 300, 6000), ('ref', 50, 300, 6000), ('ns', 50, 300, 6000)],
           lambda kind, detail, d: not d['acc'] and (kind == 'accepted' or kind in CRASH), want=False, mods=edits(*EDITS), long=(LONG, 130, 2500))


def c03(run):
    keep = lambda kind, detail, d: kind in CRASH or kind in ('untyped-error', 'mutated')
    themed(run, [('core', 500, 9000), ('prolog', 200, 4000), ('utf8', 400, 6000), ('declbom', 300, 4000), ('delimchar', 300, 4000)],
           [('core', 50, 500, 20000, {'win': 40}), ('deep', 40, 300, 10000, {'win': 30}), ('bytes', 0, 900, 20000, {'win': 30}),
            ('utf8', 60, 300, 8000, {'win': 40}), ('attr', 60, 100, 3000), ('decl', 60, 200, 6000, {'win': 30}), ('ref', 60, 200, 6000), ('ns', 60, 200, 5000)],
           keep, acc=True, mods=edits(*EDITS), long=(LONG, 60, 2000))
    # sizes and depths at the limits of the representation
    judge_docs(run, as_requests(run, stratified(gen_limits(run), scale(500, 4000), 'limits'), acc=True), keep)


def c04(run):
    themed(run, [('core', 1200, 10000), ('prolog', 500, 5000), ('delim', 400, 6000), ('attr', 300, 4000)],
           [('core', 5, 700, 16000), ('deep', 5, 400, 10000), ('decl', 5, 200, 5000), ('utf8', 5, 250, 5000), ('ns', 5, 250, 5000), ('delim', 5, 250, 5000), ('attr', 0, 150, 3000)],
           lambda kind, detail, d: kind in ('tokens', 'tokerr'), want=True, tok=True, mods=edits('tag', 'misc', 'ref', 'decl', 'utf8', 'ns') + [('NsGen', {'WIDE': 0})],
           long=(('tag', 'attr', 'ns', 'text', 'ref', 'decl'), 120, 2500))


def c05(run):
    themed(run, [('attr', 4500, 30000)], [('attr', 0, 500, 10000), ('attr', 60, 500, 10000), ('dup', 20, 300, 5000, {'ns': 0})], verdict, mods=edits('tag', 'ns') + [('DupGen', {})], long=(('attr',), 450, 9000), many=('attributes', 'attributes-dup', 'attributes-next'))


def c06(run):
    themed(run, [('ns', 4500, 30000)], [('ns', 0, 1000, 15000, {'ns': 85}), ('ns', 30, 300, 8000, {'ns': 85})], verdict, mods=edits('ns') + [('NsGen', {'WIDE': 0}), ('NsGen', {'WIDE': 1}), ('RefGen', {'GROUP': 'reserved'})], long=(('ns', 'url'), 350, 6000),
           many=('declarations', 'declarations-after', 'declarations-unknown', 'prefixed-unbound'))


def c07(run):
    themed(run, [('dup', 4500, 30000)], [('dup', 0, 1500, 25000, {'ns': 90})], verdict, mods=[('DupGen', {}), ('RefGen', {'GROUP': 'url'})], long=(('url', 'attr'), 350, 7000),
           many=('prefixed', 'prefixed-dup', 'declarations-dup', 'declarations-redeclared'))


def c08(run):
    themed(run, [('ref', 2600, 12000), ('reftext', 2600, 20000)], [('ref', 0, 700, 15000), ('ref', 40, 300, 5000)], verdict, mods=edits('ref') + [('RefGen', {'GROUP': 'value'})], long=(('ref',), 450, 7000))


def c09(run):
    themed(run, [('decl', 2500, 12000), ('declbom', 2200, 16000)], [('decl', 0, 600, 15000), ('decl', 60, 500, 10000)], token_of({9, 10}), tok=True, mods=edits('decl', 'enc'), long=(('decl',), 400, 5000))


def c24(run):
    themed(run, [('delim', 2500, 14000), ('delimchar', 1600, 9000), ('prolog', 500, 4000)], [('delim', 0, 700, 12000), ('delim', 50, 500, 8000)],
           token_of({6, 7, 8, 11, 12}), tok=True, mods=edits('misc'), long=(('text',), 500, 12000))


def c22(run):
    kinds = {'untyped-error', 'no-entity-error', 'no-encoding-error', 'wrong-entity-error', 'wrong-encoding-error', 'wrong-eof-error',
             'no-parse-error', 'no-eof-error', 'parse-for-eof', 'line'}
    themed(run, [('core', 900, 9000), ('prolog', 400, 3000), ('attr', 300, 5000), ('ns', 300, 5000), ('reftext', 600, 5000), ('decl', 500, 5000), ('declbom', 300, 5000), ('delim', 500, 5000)],
           [('core', 60, 900, 20000, {'win': 20}), ('attr', 40, 200, 5000), ('ns', 30, 400, 9000), ('dup', 10, 200, 5000), ('decl', 60, 300, 6000), ('ref', 30, 400, 9000), ('delim', 50, 200, 5000), ('utf8', 50, 200, 5000)],
           lambda kind, detail, d: kind in kinds, show=ERRORS, want=False, mods=edits(*EDITS) + [('RefGen', {'GROUP': 'value'})], long=(LONG, 60, 1500))


LIMITS = ('name', 'prefix', 'value', 'run', 'depth', 'elem', 'space', 'count')


def gen_limits(run, fams=LIMITS):
    def one(f):
        items, log = tlc(run.work, 'LimitGen', env={'FAM': f, 'BIG': 1 if THOROUGH else 0})
        run.model(log)
        return items
    items = [it for g in parallel([lambda f=f: one(f) for f in fams]) for it in g]
    run.count('generated_by_model', len(items))
    return items


def c10(run):
    reqs = as_requests(run, gen_limits(run), tok=True)
    judge_docs(run, reqs, token_of(set(range(16))))


def far(run, items):
    """windows at and before large distances"""
    r = rng('far')
    out = []
    powers = (7, 8, 9, 10, 12, 15, 16, 17, 20, 24) + ((26, 28, 29) if THOROUGH else (27,))
    for e in powers:
        for k in range(scale(24, 200) if e < 20 else scale(8, 60) if e < 25 else scale(3, 10)):
            it = dict(r.choice(items))
            n = max(0, (1 << e) + r.choice((-1, 0, 1, -2, 2, r.randrange(-40, 40))))
            it['fill'] = r.choice((60, 62, 32, 97, 39, 45, 195, 10))
            x = r.random()
            if x < .75:
                n = max(0, n - len(it.get('pre', [])))
                it['pren'], it['base'] = n, n + len(it.get('pre', []))
                if 'rng' in it:
                    del it['rng']
            if x > .5:
                it['posn'] = n
            out.append(it)
    return out


def c11(run):
    items, log = tlc(run.work, 'WinGen', env={'BIG': 1 if THOROUGH else 0})
    run.model(log)
    run.count('generated_by_model', len(items))
    for theme, n in (('core', 1000), ('deep', 300), ('ref', 300), ('decl', 400), ('ns', 300), ('utf8', 300), ('delim', 300), ('bytes', 200)):
        items += gen_random(run, theme, n * scale(1, 15) // 2, 15, win=100) + gen_random(run, theme, n * scale(1, 15) // 2, 0, win=100)
    items += far(run, items)
    keep = lambda kind, detail, d: kind in VERDICT or kind in ('tokens', 'tokerr', 'strerr', 'strings', 'string', 'raw-string', 'walk', 'loccache', 'naverr')
    judge_docs(run, as_requests(run, items, tok=True, lcs=True, str=True, walk=[0, 2, 4, 4, 2, 5, 1, 3, 4, 1, 0]), keep)


def gen_trees(run, small, big, rand):
    """documents whose element structure matters"""
    items, log = tlc(run.work, 'TreeGen', env={'BIG': 1 if THOROUGH else 0})
    run.model(log)
    run.count('generated_by_model', len(items))
    wide = stratified([it for it in items if it['k'][0].startswith('wide')], 3 * big // 2, 'widetree')
    items = stratified([it for it in items if not it['k'][0].startswith('wide')], small, 'tree')
    large = stratified(gen_limits(run, ('tree',)), big, 'bigtree')
    return items, large, wide, gen_random(run, 'deep', rand, 0) + gen_random(run, 'core', rand // 4, 0) + [random_tree(rng('tree%d' % k)) for k in range(rand)]


def random_tree(r):
    """a random tree of elements as a document"""
    n, out, stack, k = r.choice((5, 12, 30, 80)), [], [], 0
    deep, wide = r.random(), r.random()
    out.append('<r>')
    stack.append('r')
    while k < n:
        x = r.random()
        if x < .15 + .5 * deep and len(stack) < r.choice((3, 5, 8, 40)):
            out.append('<a x="1">' if x < .2 else '<a>')
            stack.append('a')
            k += 1
        elif x < .3 + .5 * deep + .3 * wide:
            out.append('<b/>' if x < .5 else '<b></b>')
            k += 1
        elif len(stack) > 1:
            out.append('</%s>' % stack.pop())
        if r.random() < .2:
            out.append(r.choice(('t', '<!--<a>-->', '<?p v?>', ' ', '<![CDATA[<a/>]]>')))
    out += ['</%s>' % t for t in reversed(stack)]
    return {'d': list(''.join(out).encode()), 'ns': r.random() < .5}


def c12(run):
    small, large, wide, rand = gen_trees(run, scale(2200, 40000), scale(350, 3000), scale(500, 8000))
    items = [dict(it, lc=lc) for it in small[:scale(700, 20000)] for lc in (3, 5)] + small[scale(700, 20000):] + [dict(it, lc=lc) for it in large for lc in (3, 5)] + rand + wide
    items += gen_theme(run, 'core', scale(500, 6000), want=True)
    keep = lambda kind, detail, d: kind in ('loccache', 'lcerr') or kind in CRASH
    judge_docs(run, as_requests(run, items, lcs=True), keep)


def walk_small(r, n):
    w = []
    for _ in range(n):
        x = r.random()
        if x < .3:
            w += [r.choice((2, 3))] + [r.choice((4, 5, 4, 5, 2, 1)) for _ in range(r.randrange(5))]
        elif x < .5:
            w += [r.choice((4, 5))] * r.randrange(1, 4)
        elif x < .6:
            w += [1] * r.randrange(1, 4)
        elif x < .65:
            w.append(0)
        elif x < .68:
            w.append(r.choice((6, -1, 7, 1 << 30)))
        else:
            w.append(r.randrange(6))
    return w


def walk_all(depth):
    """descend and ascend through everything in both directions"""
    return [0] + ([2] + [4] * 3) * depth + ([1] + [5] * 2) * depth + ([3] + [5] * 2) * depth + ([1] + [4]) * depth


TAG = re.compile(rb'<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<(/?)[a-z]+(?:\s+[a-z]+=(?:"[^"]*"|\'[^\']*\'))*\s*(/?)>', re.S)


def tour(r, doc, n):
    """visits elements of a document in random order and looks around everywhere.
    Only the choice of the walk depends on this idea of the tree"""
    kids, up, cur = [[]], [0], 0
    for m in TAG.finditer(bytes(doc)):
        if m.group(1) is None:
            continue
        if m.group(1):
            cur = up[cur]
            continue
        kids.append([])
        up.append(cur)
        kids[cur].append(len(kids) - 1)
        if not m.group(2):
            cur = len(kids) - 1
    if len(kids) < 3:
        return walk_small(r, 10)
    chain = lambda x: [] if up[x] == 0 else chain(up[x]) + [x]
    inner = [x for x in range(1, len(kids)) if kids[x]]
    w, at = [0], 1
    for _ in range(n):
        to = r.choice(inner) if inner and r.random() < .6 else r.randrange(1, len(kids))
        a, b = chain(at), chain(to)
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        if r.random() < .15:
            w, k = w + [0], 0
        elif k < len(a) and k < len(b) and r.random() < .5:
            # on the level of the siblings
            x, y = (kids[up[a[k]]].index(v) for v in (a[k], b[k]))
            w += [1] * (len(a) - k - 1) + [4 if y > x else 5] * abs(y - x)
            k += 1
        else:
            w += [1] * (len(a) - k)
        for x in b[k:]:
            i, m = kids[up[x]].index(x), len(kids[up[x]])
            w += [2] + [4] * i if r.random() < .7 else [3] + [5] * (m - 1 - i)
        at = to
        m = len(kids[to])
        x = r.random()
        if m and x < .8:
            w += ([2] + [4] * m if r.random() < .5 else [3] + [5] * m) + [1]
        elif x < .9:
            w += [2] if not m else []
    return w


def c13(run):
    small, large, wide, rand = gen_trees(run, scale(2600, 40000), scale(200, 2000), scale(500, 8000))
    r = rng('walk')
    pairs = [x for a in range(6) for b in range(6) for x in (a, b)]
    triples = [x for a in range(1, 6) for b in range(1, 6) for c in range(1, 6) for x in (0, 2, a, b, c)]
    items = []
    for it in small + rand:
        w = walk_small(r, r.choice((10, 40, 80)))
        x = r.random()
        w = pairs + w if x < .15 else w + triples if x < .3 else walk_all(6) + w if x < .4 else tour(r, it['d'], r.choice((6, 12, 25))) if x < .9 else w
        items.append(dict(it, walk=w))
    for it in wide:
        items.append(dict(it, walk=tour(r, it['d'], r.choice((6, 12))), **({'lc': 5} if r.random() < .3 else {})))
    for it in large:
        n, level = it['n'], it['level']
        down = [0] + [2] * level
        w = walk_small(r, 10) + down + [4] * (n + 2) + [2, 4, 4, 1] + [5] * (n + 2) + [1, 3, 3, 1] + down + [2, 3, 1, 4] * min(n, 400) + [3, 5, 2, 1, 1, 3] + [5, 3, 1] * min(n, 400)
        items.append(dict(it, walk=w))
    for d in (2, 3, 4, 5, 6, 7, 100, 253, 254, 255):
        for form in range(3):
            doc = ['<a>' * (d - 1), '<b/>', '</a>' * (d - 1)] if form == 0 else ['<a><e/>' * (d - 1), '<b/>', '<f/></a>' * (d - 1)] if form == 1 else ['<a>' * (d - 1), '<b/><b/>t', '</a>' * (d - 1)]
            if d == 2 and form == 2:
                doc = ['<a><b/><b/>t</a>']
            w = [2] * (d + 2) + [4, 5, 1, 3] * 2 + [1] * (d + 2) + [3] * (d + 2) + walk_small(r, 40) + [1] * 5 + [3, 1, 5, 4, 2] * 10 + [0] + [2, 4] * d + [1, 5] * d
            items.append({'d': list(''.join(doc).encode()), 'ns': form == 1, 'walk': w})
    keep = lambda kind, detail, d: kind in ('walk', 'naverr') or kind in CRASH
    judge_docs(run, as_requests(run, items), keep)


PIECES = [b'&amp;', b'&lt;', b'&gt;', b'&apos;', b'&quot;', b'&#65;', b'&#x41;', b'&#233;', b'&#xe9;', b'&#13;', b'&#10;', b'&#x10FFFF;', b'&#x1F600;', b'&#38;', b'&#x26;', b'&#2047;', b'&#x800;', b'&#xFFFD;', b'&#65536;',
          b'a', b'lt;', b';', b'#', b' ', b'\r', b'\n', b'\t', b'\r\n', b'\r\r', b'\n\r', b']', b']]', b'\xc3\xa9', b'\xe5\x90\x8d', b'\xf0\x9f\x98\x80', b'0123456789', b'&#9;', b'&#0000000065;']


def random_pieces(r):
    """content of an element or attribute, with ranges of whole pieces"""
    ps = [r.choice(PIECES) for _ in range(r.choice((1, 3, 8, 25)))]
    attr = r.random() < .4
    head, tail = (b'<e z="', b'"/>') if attr else (b'<e>', b'</e>')
    if r.random() < .3:
        head = b'<!--\r\n--><?p \r?>' + head
    cuts = [i for i in range(len(ps) + 1) if i in (0, len(ps)) or not (ps[i - 1].endswith(b'\r') and ps[i].startswith(b'\n'))]
    at = [len(head)]
    for p in ps:
        at.append(at[-1] + len(p))
    rg = []
    for _ in range(4):
        i, j = sorted((r.choice(cuts), r.choice(cuts)))
        if i < j:
            rg.append([at[i], at[j] - at[i]])
    it = {'d': list(head + b''.join(ps) + tail), 'ns': r.random() < .5}
    if rg:
        it['rng'] = rg
    return it


def declared(r, it):
    """puts a document without declaration behind one, or a byte order mark, and
    into a window"""
    d = it['d']
    if r.random() < .5 and d[:2] != [60, 63] and d[:1] != [239] and not it.get('pre'):
        ascii_ = max(d) < 128
        head = list(r.choice([b"<?xml version='1.0' encoding='us-ascii'?>", b'<?xml version="1.0" encoding="ASCII"?>'] * (3 if ascii_ else 0) + [b"<?xml version='1.0' encoding='utf-8'?>", b'\xef\xbb\xbf']))
        it['d'] = head + d
        if 'rng' in it:
            it['rng'] = [[a + len(head), n] for a, n in it['rng']]
    if r.random() < .3 and not it.get('pre'):
        it['pre'], it['post'] = ([r.choice((32, 13, 10, 60, 38, 97)) for _ in range(r.choice((0, 1, 3, 20)))] for _ in range(2))
        it['base'] = len(it['pre'])
        if 'rng' in it:
            it['rng'] = [[a + len(it['pre']), n] for a, n in it['rng']]


def c15(run):
    items, log = tlc(run.work, 'StrGen', env={'BIG': 1 if THOROUGH else 0}, heap='6g')
    run.model(log)
    run.count('generated_by_model', len(items))
    items = stratified(items, scale(4200, 50000), 'str')
    for g in ('value', 'url'):
        items += gen_module(run, 'RefGen', {'GROUP': g}, scale(500, 5000), True, 0)[0]
    r = rng('pieces')
    items += [random_pieces(r) for _ in range(scale(1200, 20000))]
    for theme, n in (('ref', 500), ('core', 400), ('decl', 200), ('utf8', 250), ('ns', 150), ('delim', 250), ('attr', 150)):
        items += gen_random(run, theme, n * scale(1, 15), 0, win=30)
    for it in items:
        it.pop('win', None) if not it.get('pre') and not it.get('post') else None
        declared(r, it)
    keep = lambda kind, detail, d: kind in ('strings', 'string', 'raw-string', 'string-range', 'raw-range', 'crlf', 'strerr', 'naverr') or kind in CRASH
    judge_docs(run, as_requests(run, items, str=True), keep)
    # long tokens, and tokens that continue others
    items = stratified([it for it in gen_limits(run, ('value', 'run', 'name', 'prefix', 'space')) if it['k'][0] not in ('cdata-twice',)], scale(500, 5000), 'longstr') + [it for it in gen_long(run, ('tag', 'attr', 'ns', 'text', 'ref'), scale(100, 2000)) if it['k'][1] < 5]
    judge_docs(run, as_requests(run, items, strr=True), keep)


CLASSES = ('space', 'valid', 'namestart', 'name', 'content')


def class_record(q, o):
    return dict({k: v for k, v in q.items() if k not in ('op', 'extra')}, v=o['v'], runs=o.get('runs', []), extra=o.get('extra', 0))


def c20(run):
    """every code point in every class"""
    r = rng('extra')
    extra = sorted({1114112, 1114113, 0x110041, 0x110020, 0x1FFFFF, 0x200000, 0x200041, 0x7FFFFFFF, 0x80000000, 0x80000041, 0x80000020, 0xFFFFFFFF, 0xFFFFFFDF, 0x1000041, 0x1000020, 0x10000041} |
                   {(b + c) & 0xFFFFFFFF for b in (1 << 21, 1 << 22, 1 << 24, 1 << 28, 1 << 31, 0xFF000000) for c in (9, 32, 38, 65, 0x4e00, 0x10400)} | {r.randrange(1114112, 1 << 32) for _ in range(scale(200, 3000))})
    reqs = []
    for cl in CLASSES:
        step = 1114112 // 68
        for a in range(0, 1114112, step):
            reqs.append({'op': 'class', 'class': cl, 'from': a, 'to': min(a + step, 1114112) - 1, 'extra': extra[len(reqs) % 3::3] if a >= 1114112 - 3 * step else []})
    r.shuffle(reqs)
    got = {}

    def scan():
        got['obs'] = pool(run.work, run.conf, reqs, limit=600)

    def gen():
        items, log = tlc(run.work, 'CharGen', env={'BIG': 1 if THOROUGH else 0})
        run.model(log)
        return items
    items = parallel([gen, scan])[0]
    run.count('generated_by_model', len(items))
    recs = [class_record(q, o) for q, o in zip(reqs, got['obs'])]
    diffs, n = judge(run.work, 'ClassTrace', recs, nproc=1)
    run.traces += n
    run.count('code_points_classified', sum(q['to'] - q['from'] + 1 for q in reqs))
    run.count('values_beyond_unicode', sum(len(q['extra']) for q in reqs))
    run.sample({'block': {k: v for k, v in reqs[0].items() if k != 'extra'}, 'observed': trim(got['obs'][0])})
    for d in diffs:
        for kind, detail in d['diffs']:
            run.violation(kind, {'request': reqs[d['i']], 'kind': kind, 'observed_only_and_specified_only': detail, 't': 'class'})
    judge_docs(run, as_requests(run, stratified(items, scale(4000, 9000), 'chars'), tok=True), token_of(set(range(16))))


def sched_docs(run):
    """documents that leave as much as possible behind in a parser"""
    fixed = [b'<a/>', b'<a><b><c><d><e><f>t</f></e></d></c></b></a>', b"<?xml version='1.0' encoding='us-ascii'?><a>t</a>", b'\xef\xbb\xbf<a>\xc3\xa9</a>',
             b"<p:a xmlns:p='u' xmlns:q='v' p:x='1' q:x='2'><p:b/><q:c p:y='&lt;'/></p:a>", b"<a b='1' c='2' d='3'>t&amp;u<b b='4'/></a><!--x--><?p v?>",
             b'<!DOCTYPE a [<!ENTITY e "x">]><a><![CDATA[c]]></a>', b'<a><b></a>', b'<a', b'<a>', b"<a b='1' b='2'/>", b'<p:a/>', b'<a>&foo;</a>', b'<a>\xff</a>', b"<?xml version='1.0' encoding='iso-8859-1'?><a/>",
             b'<a>' + b'<b x="y">t</b>' * 70 + b'</a>', b'<a>' * 60 + b'</a>' * 60, b'<a ' + b' '.join(b'x%d="1"' % k for k in range(80)) + b'/>',
             b'<a ' + b' '.join(b'xmlns:x%d="u%d"' % (k, k) for k in range(40)) + b'><x39:b x1:z="" x2:z=""/></a>']
    items = [{'d': list(d), 'ns': ns} for d in fixed for ns in (False, True)]
    for theme, n, mut in (('core', 60, 10), ('ns', 40, 0), ('deep', 40, 5), ('decl', 30, 10), ('ref', 20, 20), ('dup', 20, 0)):
        items += gen_random(run, theme, scale(n, 10 * n), mut, ns=60)
    return as_requests(run, items)


def c21(run):
    docs = sched_docs(run)
    r = rng('sched')
    scheds, log = tlc(run.work, 'Sched', env={'P': 2})
    run.model(log)
    run.count('generated_by_model', len(scheds))
    scheds = stratified(scheds, scale(1500, 20000), 'sched')
    more, log = tlc(run.work, 'Sched', env={'P': 3}, args=('-simulate', 'num=%d' % scale(700, 8000), '-depth', '30', '-seed', str(SEED)), ok=(0,))
    run.count('generated_by_model', len(more))
    reqs = []
    for s in scheds + more:
        parts = []
        x = r.random()
        for k in s['share']:
            q = dict(parts[k]) if k >= 0 else dict(r.choice(docs)) if x < .85 or not parts else dict(parts[0])
            q['walk'] = walk_small(r, 4) + [0, 2, 4]
            parts.append(q)
        reqs.append({'op': 'sched', 'parts': parts, 'share': s['share'], 'order': s['order'], 'gor': r.random() < .5})
    obs = pool(run.work, run.conf, reqs)
    recs, where = [], []
    for n, (q, o) in enumerate(zip(reqs, obs)):
        if o['v'] == 'skipped':
            continue
        for k, p in enumerate(q['parts']):
            po = o['parts'][k] if o['v'] == 'ok' else {'v': o['v']}
            if k == 0 and o.get('printed'):
                po['printed'] = True
            recs.append(doc_record(p, po))
            where.append((n, k))
    diffs, n = judge(run.work, 'XmlTrace', recs)
    run.traces += n
    run.count('schedules', len(reqs))
    for q in r.sample(reqs, 2):
        run.sample({'documents': [show(p) for p in q['parts']], 'share': q['share'], 'order': q['order'], 'goroutines': q['gor']})
    # what is wrong with a participant although it is right when alone
    suspects = {}
    for d in diffs:
        kinds = [(k, x) for k, x in d['diffs'] if k != 'crlf']
        if kinds:
            suspects[where[d['i']]] = kinds
    if suspects:
        at = sorted(suspects)[:200]
        alone = pool(run.work, run.conf, [{'op': 'sched', 'parts': [reqs[n]['parts'][k]], 'share': [-1], 'order': [0] * 8, 'gor': False} for n, k in at], fresh=True)
        same, _ = judge(run.work, 'XmlTrace', [doc_record(reqs[n]['parts'][k], o['parts'][0] if o['v'] == 'ok' else {'v': o['v']}) for (n, k), o in zip(at, alone)])
        same = {d['i']: json.dumps(d['diffs'], sort_keys=True) for d in same}
        for j, (n, k) in enumerate(at):
            for kind, detail in suspects[(n, k)]:
                if kind in ('mutated', 'printed') or '"%s"' % kind not in same.get(j, ''):
                    run.violation('%s in a schedule' % kind, {'request': reqs[n], 'participant': k, 'observed': trim(obs[n]), 'kind': kind, 'specification': detail, 't': 'sched'})
    # side effects of single parses, accepted and rejected in every way
    items = []
    for g in parallel([lambda t=t: gen_theme(run, t, scale(250, 3000), big=False) for t in ('core', 'prolog', 'declbom', 'reftext', 'ns', 'delim', 'dup')]):
        items += g
    for theme in ('core', 'bytes', 'decl', 'attr', 'ref', 'ns'):
        items += gen_random(run, theme, scale(120, 2000), 40, win=30)
    judge_docs(run, as_requests(run, items, tok=True, str=True, acc=True), lambda kind, detail, d: kind in ('mutated', 'printed'))
    race(run, docs, r)


def race(run, docs, r):
    conf = build(run.work, race=True)
    r.shuffle(docs)
    good = {'op': 'doc', 'ns': True, 'lc': 3, 'd': list(b"<a x='1'>t&lt;<b/></a>")}
    # fresh processes, where things happen for the first time
    for k in range(scale(4, 20)):
        race1(run, conf, [dict(q, walk=[0, 2]) for q in [good] * (k % 2) + docs[2 * k:2 * k + 2]])
    race1(run, conf, [dict(q, walk=walk_small(r, 6)) for q in docs[:scale(28, 400)]])


def race1(run, conf, some):
    p = run.work.path('race')
    with open(p, 'w') as f:
        for q in some:
            f.write(json.dumps(q) + '\n')
    with open(p) as fi:
        try:
            x = subprocess.run([conf, 'race'], stdin=fi, capture_output=True, text=True, errors='replace', timeout=700, env=dict(os.environ, GORACE='halt_on_error=0 exitcode=66'))
        except subprocess.TimeoutExpired:
            run.violation('parallel use does not end', {'documents': [show(q) for q in some][:20], 't': 'race'})
            return
    if 'DATA RACE' in x.stderr:
        at = x.stderr.index('DATA RACE')
        run.violation('data race', {'report': x.stderr[at:at + 3000], 't': 'race'})
    if x.stdout:
        run.violation('printed', {'stdout': x.stdout[:500], 't': 'race'})
    m = re.search(r'^RESULT (.*)$', x.stderr, re.M)
    if not m:
        if 'DATA RACE' not in x.stderr:
            if 'panic' in x.stderr or 'fatal error' in x.stderr:
                run.violation('parallel use crashes', {'report': x.stderr[:3000], 't': 'race'})
            else:
                raise ToolError('race run failed: ' + x.stderr[-1500:])
        return
    res = json.loads(m.group(1))
    run.count('parallel_runs', res['runs'])
    run.traces += res['runs']
    for b in res['bad']:
        run.violation('different in parallel', {'document': show(some[b['i']]), 'request': some[b['i']], 'difference': b['what'], 't': 'race'})


# ---------------------------------------------------------------------------
# single components

def judge_units(run, t, items, keep=('k',)):
    """runs histories of a component and lets UnitTrace judge them"""
    ops = {'vec': 'vec', 'bytes': 'bytes', 'reader': 'reader', 'tok': 'tok'}
    reqs = []
    for it in items:
        q = {'op': ops[t]}
        q.update({k: v for k, v in it.items() if k not in ('k', 'toks')})
        reqs.append(q)
    obs = pool(run.work, run.conf, reqs)
    recs, idx = [], []
    for n, (it, o) in enumerate(zip(items, obs)):
        if o['v'] == 'skipped':
            continue
        r = {k: v for k, v in it.items() if k != 'k'}
        r.update({k: v for k, v in o.items() if k != 'printed'})
        r['t'] = t
        for f in ('w', ):
            r.pop(f, None)
        recs.append(r)
        idx.append(n)
    diffs, n = judge(run.work, 'UnitTrace', recs)
    run.traces += n
    run.count('histories_' + t, n)
    for n in rng('sample' + t).sample(range(len(reqs)), min(2, len(reqs))):
        run.sample(trim({'history': reqs[n], 'observed': obs[n]}))
    for d in diffs:
        n = idx[d['i']]
        for kind, detail in d['diffs']:
            what = kind
            run.violation(what, {'request': reqs[n], 'observed': trim(obs[n]), 'kind': kind, 'specification': detail, 't': t, 'toks': items[n].get('toks')})


def trim(x):
    t = json.dumps(x)
    return x if len(t) < 600 else t[:600] + '...'


def gen_units(run, module, env=None, n=None, tag=''):
    items, log = tlc(run.work, module, env=dict(env or {}, BIG=1 if THOROUGH else 0))
    run.model(log)
    run.count('generated_by_model', len(items))
    return stratified(items, n, module + tag) if n else items


def op(o, i=0, v=(0, 0), n=0):
    return {'o': o, 'i': [0, i], 'v': list(v), 'n': n}


def random_vec(r, kind, exp, length, page):
    """a random history; what it should do is decided by Vector.tla"""
    ops, size, k = [], 0, 1
    limit = min(6 * page + 8, 300) if page <= 64 else 2 * page + 20
    def val():
        nonlocal k
        k += 1
        if kind == 'obj':
            return (0, k)
        return (r.choice((0, -1, k, -k, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31))), r.choice((k, -k, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31))))
    for _ in range(length):
        x = r.random()
        if x < .3 and size < limit:
            ops.append(op('app', 0, val())); size += 1
        elif x < .45 and size + page + 1 < limit:
            n = r.choice((page - 1, page, page + 1, 2, 3)) or 1
            ops.append(op('appn', 0, (0 if kind == 'obj' else k, k * 5), n)); size += n; k += n
        elif x < .62:
            i = r.choice((0, size - 1, size, size // 2, page - 1, page, page + 1, r.randrange(-1, size + 2)))
            ops.append(op('set', i, val()))
        elif x < .76 and kind != 'obj':
            n = r.choice((size, max(0, size - 1), min(size, page), min(size, page + 1), min(size, max(0, page - 1)), r.randrange(0, size + 1), 0 if r.random() < .2 else size // 2))
            ops.append(op('size', 0, (0, 0), n)); size = n
        elif x < .79:
            ops.append(op('clear')); size = 0
        elif x < .9:
            ops.append(op('get', r.randrange(-1, size + 2)))
        elif page <= 64 or r.random() < .1:
            ops.append(op('obs'))
    ops.append(op('obs'))
    return {'kind': kind, 'exp': exp, 'ops': ops}


def random_vecs(run, kind, n):
    r = rng('vec' + kind + run.prop)
    out = []
    for j in range(n):
        exp = r.choice((0, 1, 2, 3, 5, 6))
        out.append(random_vec(r, kind, exp, r.choice((10, 30, 80)), 2 ** exp))
    for j in range(max(4, n // 60)):
        exp = r.choice((-1, 10, 8))
        page = 1024 if exp < 0 else 2 ** exp
        out.append(random_vec(r, kind, exp, 12, page))
    return out


def c16(run):
    for kind in ('long', 'int'):
        judge_units(run, 'vec', gen_units(run, 'PagedBuffer', {'KIND': kind}))
        judge_units(run, 'vec', random_vecs(run, kind, scale(600, 8000)))


def c17(run):
    judge_units(run, 'vec', gen_units(run, 'LongHalves'))
    judge_units(run, 'vec', gen_units(run, 'PagedBuffer', {'KIND': 'obj'}))
    judge_units(run, 'vec', random_vecs(run, 'obj', scale(900, 12000)))
    judge_units(run, 'vec', random_vecs(run, 'long', scale(300, 4000)))


def c18(run):
    judge_units(run, 'bytes', gen_units(run, 'ByteGen'))
    r = rng('bytes')
    items = []
    for _ in range(scale(150, 2500)):
        n = r.choice((1, 2, 17, 100, 300))
        d = [r.randrange(256) for _ in range(n)]
        num = lambda: r.choice(([0, r.randrange(-3, n + 4)], [0, r.randrange(n)], [1, -r.randrange(n + 3)], [2, r.randrange(n + 3)], [3, r.randrange(-n, n)], [5, r.randrange(n)]))
        items.append({'d': d, 'ops': [{'o': r.choice(('at', 'slice', 'slice', 'slice')), 'i': num(), 'l': num()} for _ in range(60)]})
    judge_units(run, 'bytes', items)


def c19(run):
    for kind in ('utf8', 'ascii'):
        judge_units(run, 'reader', gen_units(run, 'ReaderGen', {'KIND': kind}, scale(8000, 60000), kind))
        r = rng('reader' + kind)
        items = []
        pieces = [[65], [66], [13], [10], [13, 10], [0], [127], [195, 169], [229, 144, 141], [240, 144, 128, 128], [239, 187, 191], [239, 191, 189], [128], [255], [195], [240, 144]]
        cps = [65, 66, 13, 10, 0, 127, 233, 21517, 65536, 65279, 65533]
        for _ in range(scale(1500, 20000)):
            d = []
            while len(d) < r.choice((3, 8, 20)):
                d += r.choice(pieces[:7] if kind == 'ascii' else pieces)
            a = r.randrange(len(d) + 1)
            b = r.randrange(a, len(d) + 1)
            ops = []
            for _ in range(r.choice((5, 20, 40))):
                o = r.choice(('get', 'get', 'get', 'skip', 'skip', 'seq', 'at', 'long', 'off', 'set'))
                i = [0, r.randrange(a, len(d) + 2)] if o in ('at', 'long') else [0, r.randrange(a, b + 1)]
                ops.append({'o': o, 'i': i, 'c': r.choice(cps[:6] if kind == 'ascii' else cps), 's': [r.choice(cps[:6]) for _ in range(r.randrange(4))]})
            items.append({'kind': kind, 'd': d, 'off': [0, a], 'end': [0, b], 'ops': ops})
        judge_units(run, 'reader', items)


def c14(run):
    judge_units(run, 'tok', gen_units(run, 'TokGen'))


def num(x):
    """an integer as in Ints.tla"""
    return [0, x]


def conf_items(run):
    items, log = tlc(run.work, 'CfgGen', env={'BIG': 1 if THOROUGH else 0})
    run.model(log)
    run.count('generated_by_model', len(items))
    return [it for it in items if 'opts' in it], [it for it in items if 'ctor' in it]


def random_opts(r, docs):
    """a random sequence of options; what it means is decided by Config.tla"""
    out = []
    for _ in range(r.choice((1, 2, 3, 5, 8))):
        o = {'o': 'doc', 'nil': False, 'd': [], 'off': num(0), 'len': num(0), 'b': False, 'n': 0}
        x = r.random()
        if x < .25:
            o.update(d=r.choice(docs))
        elif x < .5:
            d = r.choice(docs)
            pre, post = ([r.choice((10, 32, 60, 62, 97, 38, 0, 255)) for _ in range(r.choice((0, 0, 1, 5)))] for _ in range(2))
            off, n = len(pre), len(d)
            if r.random() < .3:
                off += r.choice((-1, 1, -off, n))
            if r.random() < .3:
                n += r.choice((-1, 1, len(post), len(post) + 1, -n))
            o.update(o='win', d=pre + d + post, off=num(off), len=num(n))
        elif x < .65:
            o.update(o='ns', b=r.random() < .5)
        elif x < .8:
            o.update(o='lc', n=r.choice((3, 5)))
        elif x < .95:
            o.update(o='reuse', b=r.random() < .5)
        else:
            o.update(nil=r.random() < .5)
        out.append(o)
    return {'opts': out, 'k': 'random'}


def judge_conf(run, items):
    reqs = [{'op': 'cfg', 'opts': it['opts']} if 'opts' in it else dict(it['ctor'], op='ctor') for it in items]
    obs = pool(run.work, run.conf, reqs)
    recs, idx = [], []
    for n, (q, o) in enumerate(zip(reqs, obs)):
        if o['v'] == 'skipped':
            continue
        recs.append(conf_record(q, o))
        idx.append(n)
    diffs, n = judge(run.work, 'ConfTrace', recs)
    run.traces += n
    run.count('constructions', n)
    run.count('parsers', sum(q['op'] == 'cfg' for q in reqs))
    run.count('parsers_refused', sum(o['v'] == 'new' for o in obs))
    for n in rng('sampleconf').sample(range(len(reqs)), min(5, len(reqs))):
        run.sample(trim({'construction': reqs[n], 'observed': slim(obs[n])}))
    for d in diffs:
        n = idx[d['i']]
        for kind, detail in d['diffs']:
            run.violation(kind, {'request': reqs[n], 'observed': trim(obs[n]), 'kind': kind, 'specification': detail, 't': 'conf'})


def conf_record(q, o):
    if q['op'] == 'ctor':
        r = {k: v for k, v in q.items() if k != 'op'}
        r.update(v=o['v'], c=o.get('c', 0))
        return r
    r = doc_record({'d': []}, o)
    for k in ('d', 'base', 'ns', 'lc'):
        r.pop(k)
    r.update(opts=q['opts'], c=o.get('c', 0))
    return r


def c23(run):
    opts, ctors = conf_items(run)
    r = rng('opts')
    docs = [it['d'] for theme, n, mut in (('core', 60, 0), ('ns', 60, 10), ('decl', 40, 10), ('deep', 60, 0), ('dup', 20, 0)) for it in gen_random(run, theme, scale(n, 10 * n), mut)]
    judge_conf(run, stratified(opts, scale(4000, 60000), 'opts') + ctors + [random_opts(r, docs) for _ in range(scale(1500, 20000))])


def c25(run):
    items, log = tlc(run.work, 'ErrGen', env={'BIG': 1 if THOROUGH else 0})
    run.model(log)
    run.count('generated_by_model', len(items))
    items = stratified(items, scale(9000, 90000), 'errs')
    reqs = [{'op': 'errs', 'errs': it['errs']} for it in items]
    obs = pool(run.work, run.conf, reqs)
    pairs = [(q, o) for q, o in zip(reqs, obs) if o['v'] != 'skipped']
    diffs, n = judge(run.work, 'ErrTrace', [{'errs': q['errs'], 'v': o['v'], 'obs': o.get('obs', [])} for q, o in pairs])
    run.traces += n
    run.count('chains', n)
    for q, o in rng('errs').sample(pairs, 3):
        run.sample(trim({'errors': [(e['k'], e['c']) for e in q['errs']], 'observed': o.get('obs')}))
    for d in diffs:
        q, o = pairs[d['i']]
        for kind, detail in d['diffs']:
            run.violation(kind, {'request': q, 'observed': trim(o), 'kind': kind, 'specification': detail, 't': 'errs'})


def replay(work, path):
    """runs a reported counterexample again and lets the specification judge it"""
    with open(path) as f:
        v = json.load(f)
    d = v['detail']
    if 'request' not in d or d.get('t') == 'race':
        print('found by a run of many goroutines; run the check again: ' + json.dumps(d)[:3000])
        return 2
    q = d['request']
    o = pool(work, build(work), [q], fresh=True)[0]
    print('observed: ' + json.dumps(o)[:2000])
    if q['op'] == 'doc':
        diffs, _ = judge(work, 'XmlTrace', [doc_record(q, o)])
    elif q['op'] == 'sched':
        recs = []
        for k, part in enumerate(q['parts']):
            po = o['parts'][k] if o['v'] == 'ok' else {'v': o['v']}
            recs.append(doc_record(part, dict(po, printed=True) if k == 0 and o.get('printed') else po))
        diffs, _ = judge(work, 'XmlTrace', recs)
    elif q['op'] in ('cfg', 'ctor'):
        diffs, _ = judge(work, 'ConfTrace', [conf_record(q, o)])
    elif q['op'] == 'errs':
        diffs, _ = judge(work, 'ErrTrace', [{'errs': q['errs'], 'v': o['v'], 'obs': o.get('obs', [])}])
    elif q['op'] == 'class':
        diffs, _ = judge(work, 'ClassTrace', [class_record(q, o)])
    else:
        r = {k: x for k, x in q.items() if k not in ('op', 'w')}
        if d.get('toks'):
            r['toks'] = d['toks']
        r.update({k: x for k, x in o.items() if k not in ('printed', 'w')})
        diffs, _ = judge(work, 'UnitTrace', [dict(r, t=d['t'])])
    for x in diffs:
        x['diffs'] = [y for y in x['diffs'] if y[0] != 'crlf' or v['property'] != 'C15']
    diffs = [x for x in diffs if x['diffs']]
    print('specification: ' + (json.dumps(diffs)[:3000] if diffs else 'agrees'))
    return 1 if diffs else 0


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
          'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C15': c15, 'C14': c14, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25}
