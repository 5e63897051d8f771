"""C32: what the derives must refuse. Generates valid items, and for each a copy with one offence put in;
the compiler is the instrument, the verdict compares its diagnostics with where offences were put."""
import json, os, random, re

PRELUDE = '''// generated by lib/refuse.py
#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]
#[derive(Clone, Copy, PartialEq, Debug, ::measured::FixedCardinalityLabel)]
pub enum Kind { One, Two, Three }
#[derive(Clone, Copy, PartialEq, Debug, ::measured::FixedCardinalityLabel)]
pub enum Other { One, Two }
pub type Frozen1 = ::lasso::RodeoReader;
pub type Set1 = ::measured::label::StaticLabelSet<Kind>;
pub type Dyn1 = ::lasso::ThreadedRodeo;
pub type Key1<'a> = &'a str;
pub fn is_group<T: ::measured::label::LabelGroup>() {}
pub const ONE: isize = 1;
#[derive(::measured::MetricGroup, Default)]
pub struct Inner { pub inside: ::measured::Counter }
#[derive(::measured::LabelGroup)]
#[label(set = OneSet)]
pub struct One { pub one: Kind }
pub mod again { pub use ::measured::*; }
fn main() {}
'''

WORDS = ['alpha', 'beta', 'gamma_ray', 'delta', 'eps1', 'zeta', 'r#type', 'r#match', 'Eta', '_theta']
CAMEL = ['Get', 'PostIt', 'HTTPThing', 'A1', 'Self_', 'Zz', 'Under_Score', 'X']
CASES = ['UpperCamelCase', 'lowerCamelCase', 'snake_case', 'kebab-case', 'SHOUTY_SNAKE_CASE', 'SHOUTY-KEBAB-CASE', 'Title Case', 'Train-Case']
NOT_CASES = ['camelCase', 'SNAKE_CASE', 'snake-case', 'UPPERCASE', 'lowercase', '', 'Snake_Case', 'PascalCase', 'snake_case ', 'train-case', 'Title_Case', 'Kebab-Case']
BAD_NAMES = ['{a}', 'a=b', 'a,b', '\\0', 'a\\u{301}', '\u00e4b', '\uff41', '0', 'total total', 'x#', '$x', 'a\\t', '-', '', '1st', 'a-b', 'a b', 'é', 'a.b', 'a/b', 'name\\n', '9', 'a"b'.replace('"', '\\"'), ' a', 'a ']
FOREIGN = ['#[allow(dead_code)]', '#[cfg(all())]', '#[cfg_attr(all(), allow(unused))]', '/// says something', '']


class Attrs:
    """the arguments of one place, written as one or several lists"""

    def __init__(self, r, word, args, how=None):
        self.r, self.word, self.args, self.how = r, word, list(args), how

    def text(self):
        r, args = self.r, list(self.args)
        if not self.how:
            r.shuffle(args)
        out = []
        while args:
            k = {'together': len(args), 'apart': 1}.get(self.how) or r.randint(1, len(args))
            cut, args = args[:k], args[k:]
            comma = r.choice(['', '', '', '', ','])
            out.append('#[%s(%s%s)]' % (self.word, ', '.join(cut), comma))
            if r.random() < .2:
                out.append(r.choice(FOREIGN[:4]))
        return '\n    '.join(out)


def pick(r, xs, n):
    xs = list(xs)
    r.shuffle(xs)
    return xs[:n]


# ------------------------------------------------------------------ the three derives
# an offence edits the item's parts in place and returns its name, or None if it does not apply


def valid(r, derive):
    it = {'derive': derive, 'shape': 'ok', 'raw': [], 'generic': False}
    if derive == 'LabelGroup':
        it['word'] = 'label'
        it['args'] = ['set = TheSet'] + (['crate = %s' % r.choice(['measured', '::measured', 'crate::again'])] if r.random() < .4 else [])
        it['fields'] = []
        for n in pick(r, WORDS, r.randint(1, 4)):
            k = r.randrange(4)
            kind, ty = [([], 'Kind'), (['fixed'], 'Kind'), (['fixed_with = Set1'], 'Kind'), (['dynamic_with = Dyn1'], "Key1<'a>")][k]
            a = list(kind)
            if r.random() < .4:
                a.append('default')
            if r.random() < .4:
                a.append('rename = "re_%s"' % n.replace('r#', '').lower())
            it['fields'].append({'name': n, 'ty': ty, 'args': a, 'raw': []})
    elif derive == 'MetricGroup':
        it['word'] = 'metric'
        it['args'] = pick(r, ['crate = ::measured', 'new()'], r.randint(0, 2))
        it['args'] = [r.choice(['new()', 'new(bounds: usize)', 'new(a: u8, b: &str,)']) if a == 'new()' else a for a in it['args']]
        it['fields'] = []
        for n in pick(r, WORDS, r.randint(1, 4)):
            k = r.randrange(4)
            if k == 0:
                a, ty = ([r.choice(['flatten', 'namespace = "sub"'])] if True else [], 'Inner')
                if r.random() < .4:
                    a.append('init = Inner::default()')
            else:
                a, ty = [], r.choice(['::measured::Counter', '::measured::Gauge', '::measured::Histogram<3>'])
                if ty.endswith('>'):
                    a.append(r.choice(['metadata = ::measured::metric::histogram::Thresholds::exponential_buckets(1.0, 2.0)',
                                       'init = ::measured::Histogram::with_metadata(::measured::metric::histogram::Thresholds::exponential_buckets(1.0, 2.0))']))
                elif r.random() < .3:
                    a.append(r.choice(['init = <%s>::new()' % ty, 'metadata = ()']))
                elif r.random() < .3:
                    ty = '::measured::%sVec<OneSet>' % ty.split('::')[-1]
                    a += pick(r, ['label_set = OneSet::new()', 'metadata = ()'], r.randint(1, 2))
                if r.random() < .4:
                    a.append('rename = "re_%s"' % n.replace('r#', '').lower())
            it['fields'].append({'name': n, 'ty': ty, 'args': a, 'raw': []})
    else:
        it['word'] = 'label'
        it['args'] = pick(r, ['crate = ::measured', 'rename_all = "%s"' % r.choice(CASES), 'singleton = "one"'], r.randint(0, 3))
        it['fields'] = []
        for i, n in enumerate(pick(r, CAMEL, r.randint(1, 5))):
            a = ['rename = "re-%s"' % n] if r.random() < .3 else []
            it['fields'].append({'name': n, 'disc': ' = %d' % (10 * i + 3) if r.random() < .4 else '', 'data': '', 'args': a, 'raw': []})
    return it


UNKNOWN = ['sets', 'Set', 'krate', 'nope', 'skip', 'fixed_by', 'renames', 'rename_al', 'flattened', 'namespaces', 'inits', 'meta', 'label_sets', 'docs', 'Default', 'news', 'single', 'ignore', 'help', 'doc', 'name', 'names', 'prefix', 'suffix', 'unit', 'kind', 'default_with', 'with', 'with_set', 'value', 'values', 'index', 'cardinality', 'dynamic', 'static', 'dyn_with', 'fixed_set', 'alias', 'key', 'labels', 'label', 'metric', 'registry', 'buckets', 'thresholds', 'counter', 'gauge', 'histogram', 'rename_fields', 'rename_all_fields', 'case', 'flat', 'ns', 'optional', 'hidden', 'try_new', 'metadata_with', 'init_with', 'type', 'r#type', 'path', 'crate_path', 'derive', 'bound', 'where', 'export', 'serialize', 'order', 'sort', 'dedup', 'first', 'last', 'cfg', 'test']
# what each place knows
KNOWN = {
    ('LabelGroup', 'item'): {'crate', 'set'}, ('LabelGroup', 'field'): {'fixed', 'fixed_with', 'dynamic_with', 'default', 'rename'},
    ('MetricGroup', 'item'): {'crate', 'new'}, ('MetricGroup', 'field'): {'rename', 'namespace', 'flatten', 'init', 'metadata', 'label_set'},
    ('FixedCardinalityLabel', 'item'): {'crate', 'rename_all', 'singleton'}, ('FixedCardinalityLabel', 'field'): {'rename'},
}
ALL = sorted(set().union(*KNOWN.values()))
VALUE = {'crate': '::measured', 'set': 'Other', 'fixed_with': 'Set1', 'dynamic_with': 'Dyn1', 'rename': '"other"', 'rename_all': '"snake_case"', 'singleton': '"two"',
         'namespace': '"ns"', 'init': 'Default::default()', 'metadata': '()', 'label_set': 'OneSet::new()'}


def arg(name):
    if name == 'new':
        return 'new()'
    return '%s = %s' % (name, VALUE[name]) if name in VALUE else name


def head(a):
    return re.match(r'\w+', a).group(0)


def place(r, it, where):
    return it if where == 'item' else r.choice(it['fields'])


def unknown(r, it):
    where = r.choice(['item', 'field'])
    known = KNOWN[it['derive'], where]
    w = r.choice(UNKNOWN + [k for k in ALL if k not in known])
    place(r, it, where)['args'].append(r.choice([w, '%s = "x"' % w, '%s(x)' % w]) if w in UNKNOWN else arg(w))
    return 'unknown argument at %s (%s)' % (where, 'known elsewhere' if w in ALL else 'no such word'), w


def twice(r, it):
    where = r.choice(['item', 'field'])
    known = sorted(KNOWN[it['derive'], where])
    p = place(r, it, where)
    w = r.choice(known)
    have = [head(a) for a in p['args']]
    n = 1 if w in have else 2
    if w in ('init',) and set(have) & {'metadata', 'label_set'} or w in ('metadata', 'label_set') and 'init' in have:
        return None
    p['args'] += [arg(w)] * n
    p['how'] = r.choice(['apart', 'together'])
    if r.random() < .5:
        p['args'].reverse()
    return 'given twice: %s at %s' % (w, where), (p['how'], n)


GROUPS = {'LabelGroup': [['fixed', 'fixed_with', 'dynamic_with']], 'MetricGroup': [['rename', 'namespace', 'flatten'], ['init', 'metadata'], ['init', 'label_set']]}


def contradiction(r, it):
    gs = GROUPS.get(it['derive'])
    if not gs:
        return None
    a, b = pick(r, r.choice(gs), 2)
    p = r.choice(it['fields'])
    have = {head(x): x for x in p['args']}
    p['args'] = [x for x in p['args'] if head(x) not in (a, b) and r.random() < .5] + [have.get(x, arg(x)) for x in (a, b)]
    p['how'] = r.choice(['apart', 'together'])
    return 'contradiction: %s and %s' % tuple(sorted((a, b))), (a, p['how'])


WRONG = {
    'crate': ['crate = "measured"', 'crate', 'crate(measured)', 'crate = 3'], 'set': ['set', 'set = "Other"', 'set(Other)', 'set = a::B', 'set = 3'],
    'fixed': ['fixed = true', 'fixed(Set1)'], 'fixed_with': ['fixed_with', 'fixed_with = "Set1"', 'fixed_with(Set1)'],
    'dynamic_with': ['dynamic_with', 'dynamic_with = "Dyn1"', 'dynamic_with(Dyn1)'], 'default': ['default = true', 'default(true)', 'default = "x"'],
    'rename': ['rename', 'rename = other', 'rename = 3', 'rename("other")', "rename = 'c'", 'rename = b"other"', 'rename = true'],
    'rename_all': ['rename_all', 'rename_all = snake_case', 'rename_all("snake_case")', 'rename_all = 3'] + ['rename_all = "%s"' % c for c in NOT_CASES],
    'singleton': ['singleton', 'singleton = two', 'singleton("two")', 'singleton = 3'], 'new': ['new', 'new = 3', 'new = "x"', 'new(3)', 'new(a)', 'new(a: )'],
    'namespace': ['namespace', 'namespace = ns', 'namespace("ns")', 'namespace = 3'], 'flatten': ['flatten = true', 'flatten("x")', 'flatten = "ns"'],
    'init': ['init', 'init = ', 'init(3)'], 'metadata': ['metadata', 'metadata(3)'], 'label_set': ['label_set', 'label_set(3)'],
}


def kind(r, it):
    where = r.choice(['item', 'field'])
    p = place(r, it, where)
    w = r.choice(sorted(KNOWN[it['derive'], where]))
    p['args'] = [a for a in p['args'] if head(a) != w] + [r.choice(WRONG[w])]
    if w in ('init', 'metadata', 'label_set', 'rename', 'namespace', 'flatten', 'fixed', 'fixed_with', 'dynamic_with'):
        # nothing else may be the reason
        p['args'] = [a for a in p['args'] if head(a) == w or head(a) in ('default', 'crate', 'set')]
    return 'wrong kind of value: %s' % w, p['args'][-1] if head(p['args'][-1]) == w else p['args'][-1:]


def not_a_list(r, it):
    where = r.choice(['item', 'field'])
    p = place(r, it, where)
    p['raw'].append('#[%s%s]' % (it['word'], r.choice(['', ' = "x"', ' = 3'])))
    return 'not a list at %s' % where, p['raw'][-1]


def malformed(r, it):
    where = r.choice(['item', 'field'])
    p = place(r, it, where)
    known = sorted(KNOWN[it['derive'], where] - {head(a) for a in p['args']} - {'new'})
    if where == 'field' and it['derive'] != 'FixedCardinalityLabel':
        known = ['rename'] if not {'rename', 'namespace', 'flatten'} & {head(a) for a in p['args']} else []
    if not known:
        return None
    w = r.choice(known)
    k = r.randrange(7)
    p['raw'].append('#[%s(%s)]' % (it['word'], [', %s' % arg(w), '%s, , ' % arg(w), '%s junk' % arg(w), '%s;' % arg(w), '"%s"' % w, '3', '%s %s' % (arg(w), arg(w))][k]))
    return 'malformed list at %s' % where, k


def missing_set(r, it):
    if it['derive'] != 'LabelGroup':
        return None
    it['args'] = [a for a in it['args'] if head(a) != 'set']
    return 'no set named', len(it['args'])


def shape(r, it):
    it['shape'] = r.choice(['struct', 'tuple', 'unit', 'union'] if it['derive'] == 'FixedCardinalityLabel' else ['tuple', 'unit', 'union', 'enum', 'empty enum', 'empty tuple'])
    return 'shape: %s' % it['shape'], 0


def variant(r, it):
    if it['derive'] != 'FixedCardinalityLabel':
        return None
    f = r.choice(it['fields'])
    for g in it['fields']:
        g['disc'] = ''
    f['data'] = r.choice(['(u8)', '()', ' {}', ' { a: u8 }', '(Kind, Kind)', '(::std::string::String)'])
    return 'variant with data: %s' % f['data'].strip(), (f is it['fields'][0], bool(f['args']))


def discriminant(r, it):
    if it['derive'] != 'FixedCardinalityLabel':
        return None
    f = r.choice(it['fields'])
    f['disc'] = ' = ' + r.choice(["b'a' as isize", '-1', '-7', '1 + 100', '(102)', 'ONE', '{ 101 }', 'true as isize', 'isize::MAX', 'i8::MIN as isize'])
    return 'discriminant that is no literal', f['disc']


def bad_name(r, it):
    n = r.choice(BAD_NAMES + ([] if it['derive'] == 'MetricGroup' else ['a:b', ':', 'a:']))
    if it['derive'] == 'FixedCardinalityLabel':
        it['args'] = [a for a in it['args'] if head(a) != 'singleton'] + ['singleton = "%s"' % n]
        return 'name of a singleton', n
    f = r.choice(it['fields'])
    if {'namespace', 'flatten'} & {head(a) for a in f['args']}:
        return None
    f['args'] = [a for a in f['args'] if head(a) != 'rename'] + ['rename = "%s"' % n]
    return 'name of a %s' % ('label' if it['derive'] == 'LabelGroup' else 'metric'), n


def unfit(r, it):
    if it['derive'] != 'LabelGroup':
        return None
    ty, args, what = r.choice([
        ('Kind', ['dynamic_with = Set1'], 'fixed set given as dynamic'), ("Key1<'a>", ['dynamic_with = Frozen1'], 'fixed set given as dynamic'),
        ("Key1<'a>", ['fixed_with = Dyn1'], 'dynamic set given as fixed'), ('Kind', ['fixed_with = Dyn1'], 'dynamic set given as fixed'),
        ("Key1<'a>", ['fixed'], 'value without a fixed cardinality'), ('u8', [], 'value without a fixed cardinality'), ('::std::string::String', [], 'value without a fixed cardinality'),
        ('Other', ['fixed_with = Set1'], 'set of other values'), ("Key1<'a>", ['fixed_with = Set1'], 'set of other values'), ('Kind', ['fixed_with = Frozen1'], 'set of other values'),
        ('u64', ['dynamic_with = Dyn1'], 'set of other values'),
        ("Key1<'a>", ['fixed_with = Frozen1', 'default'], 'default of a set that has none'), ('Kind', ['fixed_with = Other'], 'no set at all'), ("Key1<'a>", ['dynamic_with = ::std::string::String'], 'no set at all')])
    f = r.choice(it['fields'])
    f['ty'] = ty
    f['args'] = [a for a in f['args'] if head(a) == 'rename'] + args
    return 'set that does not fit: %s' % what, (ty, args)


EARLY = [unknown, twice, contradiction, kind, not_a_list, malformed, missing_set, shape, variant, discriminant]
WEIGHT = [5, 5, 4, 8, 2, 3, 1, 3, 2, 2]


def render(r, it, name, use=True):
    d = it['derive']
    at = lambda p, ind='    ': '\n'.join(ind + l for l in ([Attrs(r, it['word'], p['args'], p.get('how')).text()] if p['args'] else []) + p['raw'])
    if d == 'LabelGroup' and it['shape'] == 'ok' and any("'a" in f['ty'] for f in it['fields']):
        name += "<'a>"
    top = '#[derive(%s%s)]\n%s' % ({'FixedCardinalityLabel': 'Clone, Copy, ', 'LabelGroup': r.choice(['', 'Clone, ']), 'MetricGroup': ''}[d] if it['shape'] == 'ok' and not any(f.get('data') for f in it['fields']) else '', '::measured::' + d, at(it, ''))
    s = it['shape']
    fields = it['fields']
    if s in ('ok', 'struct', 'union'):
        if d == 'FixedCardinalityLabel':
            if s == 'ok':
                body = 'pub enum %s {\n%s\n}' % (name, '\n'.join('%s\n    %s%s%s,' % (at(f), f['name'], f['data'], f['disc']) for f in fields))
            else:
                body = 'pub %s %s { a: u8 }' % (s, name)
        elif s == 'union':
            body = 'pub union %s { a: u8, b: u16 }' % name
        else:
            body = 'pub struct %s {\n%s\n}' % (name, '\n'.join('%s\n%s\n    pub %s: %s,' % (at(f), '    ' + r.choice(FOREIGN), f['name'], f['ty']) for f in fields))
    else:
        body = {'tuple': 'pub struct %s(Kind);', 'unit': 'pub struct %s;', 'enum': 'pub enum %s { A, B }', 'empty enum': 'pub enum %s {}', 'empty tuple': 'pub struct %s();'}[s] % name
    used = ''
    have = {head(a) for a in it['args']} if s == 'ok' and use else ()
    if 'singleton' in have:
        used = '\nconst _: fn() = is_group::<Thing>;'
    if 'set' in have:
        used = '\npub type Named = TheSet;'
    if 'new' in have:
        used = '\nconst _: () = { let _ = Thing::new; };'
    return top + '\n' + body + used


HELP = '\n    use super::*;\n'


def make(seed, n_early, n_late, n_typed):
    """-> accepted, refused, names, types: lists of (offence, source). Three quarters are offences not seen before in
    the run (by derive, kind and detail), as far as there are such"""
    acc, ref, late, typed = [], [], [], []
    i = 0
    for which, n, dst in (('early', n_early, ref), ('late', n_late, late), ('typed', n_typed, typed)):
        seen, tries = set(), 0
        while len(dst) < n:
            i += 1
            s = '%s %s %d' % (seed, which, i)
            r = random.Random(s)
            d = r.choice(['LabelGroup', 'MetricGroup', 'FixedCardinalityLabel'])
            good = valid(r, d)
            bad = json.loads(json.dumps(good))
            f = r.choices(EARLY, WEIGHT)[0] if which == 'early' else {'late': bad_name, 'typed': unfit}[which]
            what = f(r, bad)
            if what is None:
                continue
            if len(dst) < n * 3 // 4 and (d, *map(str, what)) in seen and tries < 400:
                tries += 1
                continue
            seen.add((d, *map(str, what)))
            tries = 0 if tries < 400 else tries
            acc.append(('%s, without: %s' % (d, what[0]), render(random.Random(s), good, 'Thing')))
            dst.append(('%s: %s' % (d, what[0]), render(random.Random(s), bad, 'Thing', which != 'early')))
    return acc, ref, late, typed


def program(items):
    """-> source, line ranges"""
    out, ranges = PRELUDE, []
    for i, (what, src) in enumerate(items):
        a = out.count('\n') + 1
        out += 'mod m%d {%s%s\n}\n' % (i, HELP, src)
        ranges.append((a, out.count('\n')))
    return out, ranges


CARGO = '''[package]
name = "gen-refuse"
version = "0.1.0"
edition = "2021"

[dependencies]
measured = { path = "/repo/core", features = ["lasso"] }
lasso = { version = "0.7", features = ["multi-threaded"] }

[workspace]
'''
BINS = ['accepted', 'refused', 'names', 'types']


def write(p, s):
    with open(p, 'w', encoding='utf8') as f:
        f.write(s)


def generate(d, seed, n_early, n_late, n_typed):
    os.makedirs(os.path.join(d, 'src', 'bin'), exist_ok=True)
    write(os.path.join(d, 'Cargo.toml'), CARGO)
    out = {}
    for b, items in zip(BINS, make(seed, n_early, n_late, n_typed)):
        src, ranges = program(items)
        write(os.path.join(d, 'src', 'bin', b + '.rs'), src)
        out[b] = (items, ranges)
    return out


def spans(m):
    for s in m.get('spans', []):
        while s:
            yield s['file_name'], s['line_start']
            s = (s.get('expansion') or {}).get('span')
    for c in m.get('children', []):
        yield from spans(c)


class NoVerdict(Exception):
    pass


def judge(gen, output):
    """-> (list of complaints, counters); the compiler's diagnostics against what was generated"""
    errs = {b: {} for b in BINS}
    stray = {b: [] for b in BINS}
    done = set()
    for l in output.splitlines():
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m['target']['kind'] == ['bin']:
            done.add(m['target']['name'])
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        if m['target']['kind'] != ['bin']:
            raise NoVerdict('the library does not build: ' + m['message']['message'])
        b, msg = m['target']['name'], m['message']
        lines = [n for f, n in spans(msg) if f.endswith('%s.rs' % b)]
        hit = {i for i, (a, z) in enumerate(gen[b][1]) for n in lines if a <= n <= z}
        for i in hit:
            errs[b].setdefault(i, []).append(msg['message'])
        if not hit and not msg['message'].startswith(('aborting due to', 'could not compile')):
            stray[b].append(msg['message'])
    bad = []
    for b in BINS:
        if stray[b]:
            raise NoVerdict('%s: an error that belongs to no item: %s' % (b, stray[b][:3]))
        if b != 'accepted' and not errs[b]:
            if b not in done:
                raise NoVerdict('%s was not compiled' % b)
    if not errs['accepted'] and 'accepted' not in done:
        raise NoVerdict('the valid items were not compiled')
    for i, e in sorted(errs['accepted'].items()):
        bad.append('a valid item is refused (%s): %s\n%s' % (gen['accepted'][0][i][0], e[0], gen['accepted'][0][i][1]))
    counters = {'valid items accepted': len(gen['accepted'][0]) - len(errs['accepted'])}
    for b in ('refused', 'names', 'types'):
        if b != 'refused' and bad:
            break  # the compiler may not have come that far
        for i, (what, src) in enumerate(gen[b][0]):
            e = errs[b].get(i)
            if not e:
                bad.append('accepted, although the item has an offence (%s):\n%s' % (what, src))
            elif all('panicked' in x and 'evaluation' not in x for x in e) and b == 'refused':
                bad.append('the derive panics instead of refusing (%s): %s\n%s' % (what, e[0], src))
            else:
                k = 'refused: ' + what.split(': ')[1].split(' (')[0] if b == 'refused' else 'refused: ' + {'names': 'name', 'types': 'set that does not fit'}[b]
                counters[k] = counters.get(k, 0) + 1
    return bad, counters
