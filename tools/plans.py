"""What each property's check runs: which configurations of the specification
are model checked, which of their behaviours are replayed into the real code,
and which traces of the real code are judged by which trace specification."""
import json, os, random, subprocess, tempfile
from vlib import *
from hardfloats import hard_floats


def judged(scratch, spec, prop, path, hist, d):
    ops, size = count_ops(path)
    r = judge(scratch, spec, prop, path, hist, workers=d.get('workers', 4), consts=d.get('consts', 'CONSTANT DepthLimit = 512\n'),
              invs=d.get('invs'))
    samples = []
    with open(path, encoding='utf-8') as fh:
        for i, line in enumerate(fh):
            if i in (size // 3, size // 2) and len(line) < 3000:
                samples.append(json.loads(line))
    os.remove(path)
    return {'validated': ops.get('start', 0) if hist else size, 'events': size, 'ops': ops, 'states': r.distinct, 'samples': samples}


# ------------------------------------------------------------------ replays
def cps_line(t):
    return ' '.join(map(str, t))


def tokens(v):
    t = v['t']
    if t == 'null':
        return 'n'
    if t == 'bool':
        return 't' if v['b'] else 'f'
    if t == 'str':
        return 's:' + cps_line(v['s'])
    if t == 'num':
        return 'N' if v['nan'] else '#:%d:%s:%d' % (v['neg'], ''.join(map(str, v['d'])), v['e'])
    if t == 'arr':
        return '|'.join([tokens(x) for x in v['a']] + ['a:%d' % len(v['a'])])
    parts = []
    for k, x in zip(v['k'], v['v']):
        parts += ['s:' + cps_line(k), tokens(x)]
    return '|'.join(parts + ['o:%d' % len(v['k'])])


def norm(v):
    """numbers without trailing zeros, so that equal values compare equal"""
    if isinstance(v, dict):
        if v.get('t') == 'num':
            d, e = list(v['d']), v['e']
            if v['nan'] or not d:
                return {'t': 'num', 'neg': v['neg'], 'd': [], 'e': 0, 'nan': v['nan']}
            while d[-1] == 0:
                d.pop()
                e += 1
            return {'t': 'num', 'neg': v['neg'], 'd': d, 'e': e, 'nan': False}
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


def run_replay(prop, kind, lines, exe, tier, seed, scratch):
    fd, src = tempfile.mkstemp(prefix='behaviours-', dir=scratch)
    with os.fdopen(fd, 'w') as fh:
        fh.write('\n'.join(lines) + ('\n' if lines else ''))
    out = src + '.ndjson'
    drive(exe, 'replay', prop, seed, 0, tier, out, args=(src, kind))
    return out


def differs(job, want, got):
    return Violation('the real code leaves the behaviour generated from the specification',
                     {'kind': 'replay', 'model': job['name'], 'specified': want, 'observed': got})


def replay_parse(prop, job, behaviours, exes, tier, scratch, seed):
    events, samples = 0, []
    for prof in ('debug', 'release'):
        out = run_replay(prop, 'parse', [cps_line(b['i']) for b in behaviours], exes[prof], tier, seed, scratch)
        with open(out, encoding='utf-8') as fh:
            for b, line in zip(behaviours, fh):
                g = json.loads(line)
                events += 1
                if g.get('panic') or not parse_agrees(prop, b, g):
                    raise differs(job, b, g)
        os.remove(out)
    samples = [behaviours[len(behaviours) // 2]] if behaviours else []
    return {'validated': events, 'replayed': events, 'events': events, 'ops': {'parse': events}, 'samples': samples}


def parse_agrees(prop, b, g):
    ok = g['r'] == 'ok'
    if prop == 'C01':
        return ok == b['ok']
    if prop == 'C05':
        return b['ok'] or ok or g['er'] == b['er']
    return not b['ok'] or (ok and norm(g['v']) == b['v'])


def replay_emit(prop, job, behaviours, exes, tier, scratch, seed):
    """six events a value: dump, pretty 0 1 2, gen plain, gen full"""
    events = 0
    for prof in ('debug', 'release'):
        out = run_replay(prop, 'emit', [tokens(b['v']) for b in behaviours], exes[prof], tier, seed, scratch)
        with open(out, encoding='utf-8') as fh:
            lines = fh.read().split('\n')[:-1]
        for i, b in enumerate(behaviours):
            gs = [json.loads(x) for x in lines[6 * i:6 * i + 6]]
            want = [[b['d']]] + [[p] for p in b['p']] + [b['c'], b['c']]
            for j, g in enumerate(gs):
                if {'C06': j != 0, 'C07': j not in (1, 2, 3), 'C23': j < 4}.get(prop, False):
                    continue
                events += 1
                if g.get('panic'):
                    raise differs(job, b, g)
                got = [o['text'] for o in g['outs']] if j < 4 else [c % 2000000 if c >= 2000000 else c for c in g['calls']]
                if got != want[j]:
                    raise differs(job, b, g)
        os.remove(out)
    samples = [behaviours[len(behaviours) // 2]] if behaviours else []
    return {'validated': events, 'replayed': events, 'events': events, 'ops': {'emit': events}, 'samples': samples}


def replay_sink(prop, job, behaviours, exes, tier, scratch, seed):
    def word(r):
        return {'take': 't%d' % r.get('k', 0), 'intr': 'i', 'zero': 'z', 'fail': 'f%d' % r.get('tag', 0)}[r['is']]
    out = run_replay(prop, 'sink', [' '.join(word(r) for r in b['plan']) for b in behaviours], exes['debug'], tier, seed, scratch)
    res = judged(scratch, 'TraceSink', prop, out, True, {'consts': '', 'invs': ['Ends']})
    res['replayed'] = len(behaviours)
    return res


def lines_of(out):
    """recorded events, in order"""
    with open(out, encoding='utf-8') as fh:
        for line in fh:
            yield json.loads(line)
    os.remove(out)


def compared(prop, job, kind, lines, wants, agrees, exes, tier, scratch, seed, profiles=('debug', 'release'), per=1, op=None):
    """Behaviours stepped through the real code; agrees(want, got, j) says
    whether the j-th recorded event of a behaviour is what the model says."""
    n = 0
    for prof in profiles:
        for i, g in enumerate(lines_of(run_replay(prop, kind, lines, exes[prof], tier, seed, scratch))):
            n += 1
            w = wants[i // per]
            if g.get('panic') or not agrees(w, g, i % per):
                raise differs(job, w, g)
        if n % (len(wants) * per):
            raise ToolError('replay %s: %d events for %d behaviours' % (kind, n, len(wants)))
    return {'validated': n, 'replayed': n, 'events': n, 'ops': {op or kind: n}, 'samples': wants[len(wants) // 2:len(wants) // 2 + 1]}


def words(xs):
    return ' '.join(map(str, xs))


def replay_object(prop, job, bs, exes, tier, scratch, seed):
    """every operation on every reachable object, for every way of hashing"""
    lines = ['%s|%s|%s' % (words(b['h']), words(b['o']['k']), words(b['o']['v'])) for b in bs]

    def bare(o):
        return {'k': o['k'], 'v': o['v'], 'n': len(o['k'])}

    def agrees(b, g, _):
        n = range(len(b['h']))
        at = lambda o, k: o['v'][o['k'].index(k)] if k in o['k'] else 0

        def back(k):
            o = b['rem'][k]
            return {'o': {'k': o['k'] + [k + 1], 'v': o['v'] + [7], 'n': len(o['k']) + 1},
                    'left': [at(o, j + 1) for j in n]}
        return (g['ins'] == [bare(o) for o in b['ins']] == g['via']
                and g['rem'] == [{'o': bare(b['rem'][k]), 'r': b['get'][k]} for k in n]
                and g['back'] == [back(k) for k in n] and g['get'] == b['get'] == g['getmut'])
    return compared(prop, job, 'object', lines, bs, agrees, exes, tier, scratch, seed)


def replay_memory(prop, job, bs, exes, tier, scratch, seed):
    """every history of key memory, under the monitored allocator"""
    lines = [';'.join(op[0] + words(op[1:]) for op in b['h']) for b in bs]

    def agrees(b, g, _):
        return (g['a'] == b['a'] and g['bad'] == 0 and g['live'] == 0
                and g['found'] == [[k in ks for k in (1, 2, 3, 4)] for ks in b['a']])
    return compared(prop, job, 'memory', lines, bs, agrees, exes, tier, scratch, seed)


def document_line(b):
    c = b['c']
    path = ';'.join('k' + cps_line(s['k']) if 'k' in s else 'i%d' % s['i'] for s in b['p'])
    args = ([str(c['i'])] if 'i' in c else []) + ([cps_line(c['k'])] if 'k' in c else []) + ([tokens(c['x'])] if 'x' in c else [])
    return '\t'.join([tokens(b['v']), path, c['c']] + args)


def replay_document(prop, job, bs, exes, tier, scratch, seed):
    """every operation at every place of every small document"""
    def agrees(b, g, _):
        if prop == 'C22':
            return g['len'] == b['len'] and g['empty'] == b['empty']
        g['r'].pop('says', None)
        return norm(g['post']) == norm(b['post']) and (b['c']['c'] in ('assign', 'touch') or norm(g['r']) == norm(b['r']))
    return compared(prop, job, 'document', [document_line(b) for b in bs], bs, agrees, exes, tier, scratch, seed)


def replay_eqs(prop, job, bs, exes, tier, scratch, seed):
    """every pair of values compared in every way"""
    def agrees(b, g, _):
        return all(x == b['eq'] for x in g['eq']) and all(x != b['eq'] for x in g['ne'])
    return compared(prop, job, 'eqs', ['%s\t%s' % (tokens(b['a']), tokens(b['b'])) for b in bs], bs, agrees, exes, tier, scratch, seed)


def replay_iter(prop, job, bs, exes, tier, scratch, seed):
    """every script of steps, on every kind of iterator"""
    def agrees(b, g, j):
        v = g['v']
        a = v['t'] == 'arr'
        items = [{'k': [], 'x': x} for x in v['a']] if a else [{'k': k, 'x': x} for k, x in zip(v['k'], v['v'])]
        want = []
        for r in b['out']:
            if r['is'] == 'item':
                want.append(dict(items[r['i'] - 1], **{'is': 'item'}))
            elif r['is'] == 'all':
                want.append({'is': 'all', 'xs': [items[i - 1] for i in r['is_']]})
            else:
                want.append(r)
        post = json.loads(json.dumps(v))
        if g['kind'] in ('members_mut', 'entries_mut', 'iter_mut'):
            for n, i in enumerate(b['seen']):
                post['a' if a else 'v'][i - 1] = {'t': 'num', 'neg': False, 'd': [int(c) for c in str(1001 + n)], 'e': 0, 'nan': False}
        return g['got'] == want and norm(g['post']) == norm(post) and all(g['none']) and len(items) == b['n']
    return compared(prop, job, 'iter', ['%d %s' % (b['n'], words(b['cs'])) for b in bs], bs, agrees, exes, tier, scratch, seed, per=6)


def replay_judged(kind, line, op, limit, spec='TraceFacts', chunk=400):
    """values from the specification handed to the real code, whose answers
    the trace specification judges"""
    def replay(prop, job, bs, exes, tier, scratch, seed):
        if len(bs) > limit[tier]:
            random.Random(seed).shuffle(bs)
            bs = bs[:limit[tier]]
        total = None
        for a in range(0, len(bs), chunk):
            part = bs[a:a + chunk]
            out = run_replay(prop, kind, [line(b) for b in part], exes['debug' if a // chunk % 2 == 0 else 'release'], tier, seed, scratch)
            res = judged(scratch, spec, prop, out, False, {})
            if total is None:
                total = res
            else:
                for k in ('validated', 'events', 'states'):
                    total[k] += res[k]
                for k, n in res['ops'].items():
                    total['ops'][k] = total['ops'].get(k, 0) + n
        total['replayed'] = len(bs)
        return total
    return replay


PREFIX = [112] * 28    # two bytes short of the limit, as in the model


def replay_macros(prop, job, bs, exes, tier, scratch, seed):
    """every case compiled against the crate's macros, run and judged"""
    total = None
    bs.sort(key=lambda b: (b['mac'], b['src']))

    def numbered(t):
        out, n = [], 0
        for ch in t:
            if ch == '#':
                n += 1
                ch = str(n)
            out.append(ch)
        return ''.join(out)
    src, parts = [], 0
    for a in range(0, len(bs), 40):
        src.append('#[allow(unused, clippy::all)]\nfn cases_%d(e: &Env, f: &mut dyn FnMut(&str, &dyn Fn() -> JsonValue)) {\n'
                   '    let (one, name, text) = (e.one, e.name.clone(), e.text);\n' % parts)
        src += ['    f(r###"%s"###, &|| %s);\n' % (numbered(b['txt']), b['src']) for b in bs[a:a + 40]]
        src.append('}\n')
        parts += 1
    src.append('fn all(e: &Env, f: &mut dyn FnMut(&str, &dyn Fn() -> JsonValue)) {\n%s}\n' % ''.join('    cases_%d(e, f);\n' % i for i in range(parts)))
    cases = os.path.join(scratch, 'cases.rs')
    with open(cases, 'w') as fh:
        fh.write(''.join(src))
    target = os.path.join(scratch, 'macro-target')
    env = dict(os.environ, MACRO_CASES=cases, CARGO_TARGET_DIR=target, RUSTFLAGS='--cap-lints allow', CARGO_NET_OFFLINE='true')
    q = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'macros'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if q.returncode != 0:
        text = q.stdout.decode(errors='replace')
        if 'cases.rs:' in text:
            # the library and the harness build: it is the macros that refuse a case
            raise Violation('a form of the macros that the specification allows does not compile', {'kind': 'macro', 'compiler': text[:6000]})
        raise ToolError('building the macro cases failed:\n' + text[-4000:])
    out = os.path.join(scratch, 'macros.ndjson')
    q = subprocess.run([os.path.join(target, 'debug', 'macros'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if q.returncode != 0:
        raise Violation('the process died (%d)' % q.returncode, {'kind': 'crash', 'stderr': q.stdout.decode(errors='replace')[-2000:]})
    total = judged(scratch, 'TraceFacts', prop, out, False, {})
    total['replayed'] = len(bs)
    return total


def replay_shared(prop, job, bs, exes, tier, scratch, seed):
    """every schedule stepped through real threads; and what may be shared
    between threads at all, which the compiler decides"""
    target = os.path.join(scratch, 'threads-target')
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS='--cap-lints allow', CARGO_NET_OFFLINE='true')
    q = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'threads'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if q.returncode != 0:
        text = q.stdout.decode(errors='replace')
        if 'E0277' in text and 'src/main.rs' in text:
            raise Violation('a type cannot be sent to or shared between threads, or not used after a panic', {'kind': 'type', 'compiler': text[:6000]})
        raise ToolError('building the thread assertions failed:\n' + text[-4000:])
    subprocess.run([os.path.join(target, 'debug', 'threads')], check=True, timeout=60)
    limit = 2500 if tier == 'quick' else 20000
    if len(bs) > limit:
        random.Random(seed).shuffle(bs)
        bs = bs[:limit]
    word = {'begin': 'b', 'whole': 'w', 'piece': 'p', 'panic': 'x'}
    lines = [' '.join('%s%d' % (word[a], t) for a, t in b['h']) for b in bs]
    total = None
    for i, part in enumerate((lines[0::2], lines[1::2])):
        out = run_replay(prop, 'shared', part, exes['debug' if i == 0 else 'release'], tier, seed + i, scratch)
        res = judged(scratch, 'TraceShared', prop, out, True, {'invs': ['Ends']})
        if total is None:
            total = res
        else:
            for k in ('validated', 'events', 'states'):
                total[k] += res[k]
            for k, n in res['ops'].items():
                total['ops'][k] = total['ops'].get(k, 0) + n
    total['replayed'] = len(bs)
    return total


# ------------------------------------------------------------------ models
def cfg(spec='Spec', invariants='', constants='', deadlock=False):
    return 'SPECIFICATION %s\n%s\nINVARIANTS %s\nCHECK_DEADLOCK %s\n' % (spec, constants, invariants, 'TRUE' if deadlock else 'FALSE')


PARSER_INVS = 'TypeOK AcceptsGrammar DenotesGrammar LiveIsViable FailsAtOnce DeadIsFinal Emit'


def parser_model(name, seeds, alphabet, extra, depth, quick, thorough):
    def c(n):
        return cfg('Spec', PARSER_INVS, 'CONSTANTS\nAlphabet = {%s}\nSeeds <- %s\nMaxExtra = %d\nDepthLimit = %d\nEmitting = TRUE\n' % (
            alphabet, seeds, n, depth))
    return {'name': name, 'module': 'ParserMC', 'quick': c(quick), 'thorough': c(thorough), 'replay': replay_parse if depth == 512 else None}


TOP = parser_model('texts over structural characters', 'SeedsTop', '91,93,123,125,44,58,34,49,32', 0, 512, 5, 6)
NEST = parser_model('texts inside containers, nesting limit 2', 'SeedsNest', '91,93,123,125,44,58,34,49,32,10', 0, 2, 3, 5)
NESTR = parser_model('texts inside containers', 'SeedsNest', '91,93,123,125,44,58,34,49,32,10', 0, 512, 3, 4)
NUMB = parser_model('number literals', 'SeedsNum', '48,49,57,45,43,46,101,69,44,93,32', 0, 512, 4, 5)
STRI = parser_model('string literals', 'SeedsStr', '34,92,117,48,100,68,99,57,110,47,31,128512', 0, 512, 3, 4)
LITE = parser_model('literal names', 'SeedsLit', '116,114,117,101,102,97,108,115,110,10,32,44,93', 0, 512, 3, 5)


def emit_model(name, leaves, size, tsize, indents='{1,2,3}'):
    def c(n):
        return cfg('Spec', 'RoundTrip PrettyRoundTrip Valid Minimal NoControl Balanced PrettyIsLayout ZeroIndent Emit1',
                   'CONSTANTS\nDepthLimit = 512\nLeaves <- %s\nKeys <- KeySet\nMaxSize = %d\nIndents = %s\nEmitting = TRUE\n' % (leaves, n, indents))
    return {'name': name, 'module': 'EmitMC', 'quick': c(size), 'thorough': c(tsize), 'replay': replay_emit}


VALUES = emit_model('every small value written and read back', 'LeafSet', 3, 4)
NUMS = emit_model('every split of some numbers', 'NumLeaves', 1, 1, '{2}')
STRS = emit_model('strings of every ASCII character', 'StrLeaves', 1, 1, '{2}')

SINK = {'name': 'every writer schedule', 'module': 'SinkMC', 'replay': replay_sink,
        'quick': cfg('Spec', 'PrefixDelivered OkMeansAll AllMeansOk OwnError NothingAfterError Determined Emit', 'CONSTANTS Size=3 MaxOffers=4 Emitting=TRUE'),
        'thorough': cfg('Spec', 'PrefixDelivered OkMeansAll AllMeansOk OwnError NothingAfterError Determined Emit', 'CONSTANTS Size=5 MaxOffers=6 Emitting=TRUE')}


def plain_model(name, module, invs, quick, thorough, replay, extra='', **kw):
    def c(consts):
        return cfg('Spec', invs, 'CONSTANTS ' + consts) + extra
    return dict({'name': name, 'module': module, 'quick': c(quick), 'thorough': c(thorough), 'replay': replay}, **kw)


OBJECTS = plain_model('objects and their tree, for every way of hashing', 'ObjMC', 'Refines Lookups Canonical Shape DistinctKeys Emit',
                      'NKeys=3 NHashes=3 NVals=2 Emitting=TRUE', 'NKeys=4 NHashes=4 NVals=2 Emitting=TRUE', replay_object)
MEMORY = plain_model('who owns the memory of keys', 'KeyMem', 'NeverBad PtrOK NoLeak Once Emit',
                     'Short={1,2} Long={3,4} Slots={1,2} MaxLen=3 Emitting=TRUE NewCaps={0,1} MaxSteps=5',
                     'Short={1,2} Long={3,4} Slots={1,2} MaxLen=4 Emitting=TRUE NewCaps={0,1} MaxSteps=7', replay_memory, 'VIEW View\n', workers=1)
DOM_INVS = 'WriteRead Overwrite TouchSame OffPathSame Composes Refuses FromThere Conserved PushPop InsertRemove TakeAssign ClearEmpty Emit'
MUTATORS = plain_model('every mutator at every place of every small document', 'DomMC', DOM_INVS,
                       'MaxSize=3 MaxPath=2 Indexing=FALSE Emitting=TRUE', 'MaxSize=4 MaxPath=3 Indexing=FALSE Emitting=TRUE', replay_document)
INDEXING = plain_model('every path into every small document', 'DomMC', DOM_INVS,
                       'MaxSize=3 MaxPath=2 Indexing=TRUE Emitting=TRUE', 'MaxSize=3 MaxPath=3 Indexing=TRUE Emitting=TRUE', replay_document)
EQ_INVS = 'Reflexive Symmetric Transitive SameType SameAccess Finer Emit'
PAIRS = plain_model('equality of every pair', 'EqMC', EQ_INVS, 'Triples=FALSE Emitting=TRUE', 'Triples=FALSE Emitting=TRUE', replay_eqs)
TRIPLES = plain_model('equality is an equivalence', 'EqMC', EQ_INVS, 'Triples=TRUE Emitting=FALSE', 'Triples=TRUE Emitting=FALSE', None)
STRINGS = plain_model('strings inline and on the heap', 'StrRep', 'Text EqText ClearSame Emit',
                      'MaxShort=2 Bytes={97,98} MaxLen=4 Emitting=TRUE', 'MaxShort=2 Bytes={97,98} MaxLen=4 Emitting=TRUE',
                      replay_judged('strs', lambda b: '%s\t%s' % (cps_line(PREFIX + b['s']), cps_line(PREFIX + b['t'])), 'strs', {'quick': 500, 'thorough': 961}))
ITERS = plain_model('every script of iterator steps', 'IterMC', 'Bounds Once Apart Everything Exhausted InOrder Backwards Emit',
                    'MaxItems=3 MaxSteps=3 Emitting=TRUE', 'MaxItems=4 MaxSteps=4 Emitting=TRUE', replay_iter)
MACROS = plain_model('every form in the macros', 'MacroMC', 'Consumed Never Emit', 'Emitting=TRUE Pairs=FALSE', 'Emitting=TRUE Pairs=TRUE', replay_macros)
ANSWERS = dict(emit_model('accessors of every small value', 'LeafSet', 3, 4),
               replay=replay_judged('facts', lambda b: tokens(b['v']), 'facts', {'quick': 400, 'thorough': 8000}))


NUM_INVS = ('EqIsScaling EqZero EqLaws EqTransitive Trichotomy IntExact IntEnds IntUnique FixedTruncates FixedOfEqual FixedWhole '
            'PartsSame PartsEnd PartsShort ToyNearest ToyClose ToyTiny Emit')


def num_model(name, mode, replay=None, big=False):
    c = 'Mode="%s" Big=%s Emitting=%s'
    e = 'TRUE' if replay else 'FALSE'
    return plain_model(name, 'NumMC', NUM_INVS, c % (mode, 'TRUE' if big else 'FALSE', e), c % (mode, 'TRUE', e), replay)


def replay_numeq(prop, job, bs, exes, tier, scratch, seed):
    def agrees(b, g, _):
        return all(x == b['eq'] for x in g['eq']) and all(x != b['eq'] for x in g['ne'])
    return compared(prop, job, 'numeq', ['%s\t%s' % (tokens(b['a']), tokens(b['b'])) for b in bs], bs, agrees, exes, tier, scratch, seed)


def int_line(b):
    x = b['x']
    return '%s%s\t%s' % ('-' if x['neg'] else '', ''.join(map(str, x['d'])) or '0', words(int(y) for t in b['t'] for y in t))


SHARED_INVS = 'Own Running Counted Survive Emit'
SHARED = plain_model('calls that overlap, in every order', 'SharedMC', SHARED_INVS,
                     'NThreads=2 MaxCalls=3 MaxNest=2 Pieces=2 MaxPanics=1 Scratch=FALSE Emitting=TRUE',
                     'NThreads=3 MaxCalls=4 MaxNest=3 Pieces=2 MaxPanics=1 Scratch=FALSE Emitting=TRUE', replay_shared)
SCRATCH = plain_model('calls that share a buffer (a control)', 'SharedMC', 'Own',
                      'NThreads=2 MaxCalls=2 MaxNest=1 Pieces=2 MaxPanics=0 Scratch=TRUE Emitting=FALSE',
                      'NThreads=2 MaxCalls=2 MaxNest=1 Pieces=2 MaxPanics=0 Scratch=TRUE Emitting=FALSE', None, expect='Own')
ALL = {'quick': 10 ** 9, 'thorough': 10 ** 9}
NUMEQ = num_model('equality of numbers in every split', 'eq', replay_numeq)
NUMEQ3 = num_model('equality of numbers is an equivalence', 'eq3')
TOINTS = num_model('numbers read as every integer type', 'int', replay_judged('toint', lambda b: tokens(b['n']), 'toint', ALL, 'TraceNum', 3000), True)
INTS = num_model('integers at the ends of every type', 'ints', replay_judged('fromint', int_line, 'fromint', ALL, 'TraceNum', 3000), True)
FIXEDS = num_model('numbers read at every fixed point', 'fixed', replay_judged('fixed', lambda b: '%s\t%d' % (tokens(b['n']), b['p']), 'fixed',
                                                                              {'quick': 6000, 'thorough': 10 ** 9}, 'TraceNum', 3000), True)
PARTS = num_model('numbers made from parts', 'parts', replay_judged('parts', lambda b: tokens(b['n']), 'parts', ALL, 'TraceNum', 3000), True)
TOY = num_model('rounding in a small format', 'toy', None, True)


def hard_inputs(prop, exes, tier, scratch, seed):
    """floats whose neighbours' midpoints are close to short decimals"""
    rng = random.Random(seed)
    step = 2 if tier == 'quick' else 1
    bits = hard_floats(1 if tier == 'quick' else 6, step, seed % step)
    rng.shuffle(bits)
    return HARD(prop, None, [{'f': b} for b in bits[:6000 if tier == 'quick' else 60000]], exes, tier, scratch, seed)


HARD = replay_judged('floats', lambda b: str(b['f']), 'fromfloat', ALL, 'TraceNum', 1500)


def both(driver, spec, quick, thorough, hist=False, **kw):
    """the same driver on the checked and the optimised build, other seeds"""
    return [dict(driver=driver, spec=spec, profile='debug', n={'quick': quick, 'thorough': thorough}, hist=hist, **kw),
            dict(driver=driver, spec=spec, profile='release', n={'quick': quick, 'thorough': thorough}, hist=hist, **kw)]


BULKS = plain_model('large containers, worked out backwards', 'BulkMC', 'Sizes Places Lookups Handed Left Text Protocol Layout Same',
                    'MaxN=2 MaxOps=3', 'MaxN=3 MaxOps=4', None)

R = {'quick': 1, 'thorough': 12}
PLANS = {
    'C01': dict(models=[TOP, NEST, NUMB, STRI, LITE], drives=both('parse', 'TraceParse', 500, 4000), ops=['parse'], rounds=R),
    'C02': dict(models=[STRI], drives=both('parse', 'TraceParse', 900, 6000), ops=['parse'], rounds=R),
    'C03': dict(models=[NUMB], drives=both('parse', 'TraceParse', 1500, 6000), ops=['parse'], rounds=R),
    'C04': dict(models=[TOP, NESTR, NEST], drives=both('parse', 'TraceParse', 1200, 5000), ops=['parse'], rounds=R),
    'C05': dict(models=[TOP, NESTR, NUMB, STRI, LITE], drives=both('parse', 'TraceParse', 500, 4000), ops=['parse'], rounds=R),
    'C06': dict(models=[VALUES, NUMS, STRS], drives=both('emit', 'TraceEmit', 1500, 8000), ops=['dump'], rounds=R),
    'C07': dict(models=[VALUES], drives=both('emit', 'TraceEmit', 1000, 6000), ops=['pretty'], rounds=R),
    'C08': dict(models=[VALUES, NUMS, STRS], drives=both('emit', 'TraceEmit', 1500, 8000), ops=['round'], rounds=R),
    'C09': dict(models=[NUMS], drives=both('numbers', 'TraceNum', 2500, 8000), ops=['print'], rounds=R),
    'C10': dict(models=[NUMEQ, NUMEQ3], drives=both('numbers', 'TraceNum', 2000, 6000), ops=['numeq', 'numint'], rounds=R),
    'C11': dict(models=[TOINTS, INTS], drives=both('numbers', 'TraceNum', 2000, 6000), ops=['toint', 'fromint', 'notnum'], rounds=R),
    'C12': dict(models=[FIXEDS], drives=both('numbers', 'TraceNum', 4000, 10000), ops=['fixed'], rounds=R),
    'C13': dict(models=[TOY], inputs=[hard_inputs], drives=both('numbers', 'TraceNum', 700, 4000), ops=['fromfloat', 'tofloat'], rounds=R),
    'C25': dict(models=[PARTS], drives=both('numbers', 'TraceNum', 4000, 8000), ops=['parts', 'minus'], rounds=R),
    'C20': dict(models=[SINK], drives=both('emit', 'TraceSink', 1000, 4000, hist=True, consts='', invs=['Ends']) + both('emit', 'TraceEmit', 1, 1, args=('chop',)),
                ops=['start', 'w', 'ret', 'chop'], rounds=R),
    'C23': dict(models=[VALUES], drives=both('emit', 'TraceEmit', 300, 2000), ops=['gen'], rounds=R),
    'C14': dict(models=[OBJECTS], drives=both('obj', 'TraceObj', 700, 2000, hist=True, consts=''),
                ops=['oinsert', 'oassign', 'oget', 'ogetmut', 'oremove', 'oclear', 'oclone', 'oparse', 'ofrom', 'onew', 'object'], rounds=R),
    'C15': dict(models=[MEMORY], drives=both('obj', 'TraceObj', 500, 1200, hist=True, consts='') + both('dom', 'TraceDom', 500, 1000, hist=True, consts=''),
                ops=['oremove', 'oclone', 'mut', 'dclone', 'dmove', 'dend', 'oend', 'memory'], rounds=R),
    'C16': dict(models=[MUTATORS], drives=both('dom', 'TraceDom', 900, 2000, hist=True, consts=''), ops=['mut', 'document'], rounds=R),
    'C17': dict(models=[INDEXING], drives=both('dom', 'TraceDom', 700, 1500, hist=True, consts=''), ops=['iread', 'iwrite', 'itouch', 'document'], rounds=R),
    'C18': dict(models=[STRINGS], drives=both('facts', 'TraceFacts', 700, 900), ops=['strs'], rounds=R),
    'C19': dict(models=[PAIRS, TRIPLES], drives=both('facts', 'TraceFacts', 2500, 15000), ops=['eqs', 'prim', 'facts'], rounds=R),
    'C21': dict(models=[MACROS], drives=both('facts', 'TraceFacts', 1200, 4000), ops=['conv', 'macro'], rounds=R),
    'C22': dict(models=[ANSWERS, MUTATORS], drives=both('facts', 'TraceFacts', 1800, 4000), ops=['facts', 'document'], rounds=R),
    'C26': dict(models=[SHARED, SCRATCH], drives=both('shared', 'TraceShared', 1500, 4000, hist=True, invs=['Ends']),
                ops=['call', 'w', 'panic', 'done', 'par', 'end'], rounds=R),
    'C24': dict(models=[ITERS], drives=both('facts', 'TraceFacts', 1500, 6000), ops=['iter'], rounds=R),
}

# large containers, wherever they could matter
for _p in ('C04', 'C06', 'C07', 'C08', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24'):
    PLANS[_p]['models'].append(BULKS)
    PLANS[_p]['drives'] += both('bulk', 'TraceBulk', 4, 30, consts='')
    PLANS[_p]['ops'].append('bulk')
