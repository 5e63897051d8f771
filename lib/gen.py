"""Generators of programs that use the derives. Each generated item comes with the model of what it
must do, worked out here from the choices the generator made (never from the library)."""
import os, random


def generate(kind, tier, seed, out, here):
    assert kind == 'derive'
    os.makedirs(os.path.join(out, 'src', 'bin'), exist_ok=True)
    n = dict(c13=120, c14=90, c15=60) if tier == 'quick' else dict(c13=1500, c14=900, c15=700)
    write(os.path.join(out, 'Cargo.toml'), CARGO.replace('HERE', here))
    for b, f in (('c13', enums), ('c14', groups), ('c15', metrics)):
        r = random.Random('%s %s %s' % (b, seed, tier))
        d = os.path.join(out, 'src', b)
        os.makedirs(d, exist_ok=True)
        parts, per = [], 30
        i = 0
        while i < n[b]:
            k = min(per, n[b] - i)
            parts.append(f(r, i, k))
            i += k
        names = []
        for j, p in enumerate(parts):
            m = 'derived_%d' % j
            names.append(m)
            write(os.path.join(d, m + '.rs'), p)
        main = '//! generated by lib/gen.py\n#![allow(warnings)]\n'
        for m in names:
            main += '#[path = "../%s/%s.rs"]\nmod %s;\n' % (b, m, m)
        main += ('fn main() {\n    vh::report::run(|ctx, rep| {\n        rep.rule = "a distinct generated item (with the value or family judged)";\n'
                 '        let mut j = dsup::Judge { rep, src: "" };\n')
        for m in names:
            main += '        %s::run(&mut j);\n' % m
        main += '    })\n}\n'
        write(os.path.join(out, 'src', 'bin', b + '.rs'), main)
        # parts of an earlier, larger run
        for x in os.listdir(d):
            if x[:-3] not in names:
                os.remove(os.path.join(d, x))


def lists(r, word, args, indent):
    """the arguments as one attribute or as several, divided anywhere"""
    out, args = '', list(args)
    while args:
        k = len(args) if r.random() < 0.6 else r.randint(1, len(args))
        out += '%s#[%s(%s%s)]\n' % (indent, word, ', '.join(args[:k]), ',' if r.random() < 0.1 else '')
        args = args[k:]
        if args and r.random() < 0.2:
            out += indent + '#[allow(unused)]\n'
    return out


def write(p, s):
    if os.path.exists(p) and open(p, encoding='utf8').read() == s:
        return
    with open(p, 'w', encoding='utf8') as f:
        f.write(s)


CARGO = '''[package]
name = "gen-derive"
version = "0.1.0"
edition = "2021"
autobins = true

[dependencies]
vh = { path = "HERE/harness/common" }
dsup = { path = "HERE/harness/dsup" }
measured = { path = "/repo/core", features = ["lasso", "indexmap", "phf"] }
lasso = { version = "0.7", features = ["multi-threaded"] }
indexmap = "2"
phf = { version = "0.11", features = ["macros"] }

[profile.release]
opt-level = 0
debug = false
debug-assertions = true
overflow-checks = true
incremental = false

[workspace]
'''


# ---------------------------------------------------------------- text

def lit(r, s):
    """a Rust literal of this string, spelled in one of several ways"""
    if r.random() < 0.2 and '"#' not in s and '\r' not in s and '\0' not in s:
        return 'r#"%s"#' % s
    o = '"'
    for c in s:
        if c == '"':
            o += '\\"'
        elif c == '\\':
            o += '\\\\'
        elif c == '\n':
            o += '\\n'
        elif ord(c) < 32 or ord(c) == 127 or (ord(c) > 127 and r.random() < 0.5):
            o += '\\u{%x}' % ord(c)
        else:
            o += c
    return o + '"'


def plain_lit(s):
    return lit(random.Random(0), s) if False else '"' + ''.join(
        {'"': '\\"', '\\': '\\\\', '\n': '\\n'}.get(c, c if 32 <= ord(c) < 127 else '\\u{%x}' % ord(c)) for c in s) + '"'


CHARS = ['a', 'b', 'Z', '0', '9', '_', '-', ' ', '/', ':', '.', '"', '\\', '\n', '{', '}', '=', ',', '#', 'é', 'ß', '→', '日', '😀', '\t', "'", '\x01']


def anytext(r):
    return ''.join(r.choice(CHARS) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])))


def distinct_texts(r, n, base='v'):
    o = []
    while len(o) < n:
        t = anytext(r)
        if r.random() < 0.5:
            t = '/%s%d/%s' % (base, len(o), t)
        if t not in o:
            o.append(t)
    return o


# ---------------------------------------------------------------- C13: enums

WORDS = ['get', 'all', 'delete', 'user', 'network', 'down', 'timeout', 'ok', 'to', 'id', 'queue', 'internal', 'server', 'error', 'teapot',
         'http2', 'tls13', 'utf8', 'x', 'a', 'v1', 'über', 'größe', 'naïve', 'ñandu', 'привет', 'λόγος'[:4]]
RAW = ['type', 'match', 'fn', 'loop', 'move', 'ref', 'impl', 'for', 'in', 'as', 'async', 'dyn', 'try', 'box', 'static', 'yield']
ACRONYMS = ['http', 'tls', 'api', 'io', 'sql', 'http2']


def cap(w):
    return w[0].upper() + w[1:].lower()


CASES = {
    'UpperCamelCase': lambda ws: ''.join(cap(w) for w in ws),
    'lowerCamelCase': lambda ws: ws[0].lower() + ''.join(cap(w) for w in ws[1:]),
    'snake_case': lambda ws: '_'.join(w.lower() for w in ws),
    'kebab-case': lambda ws: '-'.join(w.lower() for w in ws),
    'SHOUTY_SNAKE_CASE': lambda ws: '_'.join(w.upper() for w in ws),
    'SHOUTY-KEBAB-CASE': lambda ws: '-'.join(w.upper() for w in ws),
    'Title Case': lambda ws: ' '.join(cap(w) for w in ws),
    'Train-Case': lambda ws: '-'.join(cap(w) for w in ws),
}


def single(w):
    return len(w) == 1 or w[1:].isdigit()


def variant_name(r):
    """(identifier, its words)"""
    style = r.choice(['camel', 'camel', 'camel', 'acronym', 'snake', 'shouty', 'raw', 'lower_camel'])
    if style == 'raw':
        w = r.choice(RAW)
        return 'r#' + w, [w]
    ws = []
    while len(ws) < r.choice([1, 1, 2, 2, 3, 4]):
        w = r.choice(WORDS)
        if ws and single(w) and single(ws[-1]):
            continue
        ws.append(w)
    if style in ('camel', 'lower_camel', 'acronym'):
        # a lone upper case letter followed by another upper case letter would be read as one word
        if style == 'acronym':
            ac = r.choice(ACRONYMS)
            rest = [w for w in ws if not single(w)][:2]
            if r.random() < 0.5:
                ident, ws = ac.upper() + ''.join(cap(w) for w in rest), [ac] + rest
            else:
                ident, ws = ''.join(cap(w) for w in rest) + ac.upper(), rest + [ac]
            return ident, ws
        ident = ''.join(cap(w) for w in ws)
        if style == 'lower_camel' and not single(ws[0]):
            ident = ws[0] + ''.join(cap(w) for w in ws[1:])
        if r.random() < 0.1:
            ident = r.choice(['_%s', '%s_', '__%s']) % ident
        return ident, ws
    if style == 'shouty':
        ws = [w for w in ws if 'ß' not in w] or ['get']
        return '_'.join(w.upper() for w in ws), ws
    return r.choice(['%s', '%s', '_%s', '%s_']) % r.choice(['_', '_', '__']).join(ws), ws


KEYWORDS = {'self', 'Self', 'super', 'crate', 'as', 'in', 'fn', 'get', } - {'get'} | {'type', 'match', 'loop', 'move', 'ref', 'impl', 'for', 'to'} - {'to'}


def int_lit(r, v, suffix):
    s = r.choice(['%d', '%d', '0x%x', '0b{:b}', '0o%o', 'us'])
    if s == 'us':
        t = '%d' % v
        t = t if len(t) < 3 else t[:-2] + '_' + t[-2:]
    elif '{' in s:
        t = s.format(v)
    else:
        t = s % v
    return t + suffix


def enums(r, base, count):
    out, calls = '//! generated\n', ''
    for e in range(base, base + count):
        size = 300 if e == 7 else r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 20])
        if e == 3:
            size = 0
        rename_all = r.choice([None] + list(CASES)) if e >= 9 else ([None] + list(CASES))[e]
        singleton = r.choice([None, 'kind', 'op_1', 'Kind', '_x', 'a9'])
        rep = r.choice(['', '', '', 'u8', 'i64', 'u16', 'isize', 'u64'])
        if size == 0 or size > 100:
            rep = ''
        mode = r.choice(['names', 'names', 'ints', 'mixed', 'mixed'])
        conv = CASES[rename_all or 'snake_case']
        used, vs, at, texts = set(), [], 0, []
        while len(vs) < size:
            ident, ws = variant_name(r)
            if size > 30 or ident in used:
                ident, ws = 'Variant%d' % len(vs), ['variant%d' % len(vs)]
            if ident in used or ident.startswith('_') and not ident.strip('_'):
                continue
            if ident in KEYWORDS:
                continue
            used.add(ident)
            attrs, disc, text = '', '', conv(ws)
            if mode == 'ints' or mode == 'mixed' and r.random() < 0.4:
                top = {'u8': 255, 'u16': 65535}.get(rep, 2**63 - 1)
                room = top - (size - len(vs)) - 1
                nxt = r.choice([at, at, at + r.randrange(5), at + r.randrange(300), at + r.randrange(2**40)])
                if nxt < room:
                    at = nxt
                if len(vs) == size - 1 and r.random() < 0.2:
                    at = top
                suffix = (rep or 'isize') if r.random() < 0.25 else ''
                disc = ' = ' + int_lit(r, at, suffix)
                text = str(at)
            if mode != 'ints' and r.random() < 0.3:
                text = anytext(r)
                attrs += '    #[label(rename = %s)]\n' % lit(r, text)
            if r.random() < 0.2:
                attrs += '    /// documented\n'
            at += 1
            texts.append(text)
            vs.append((ident, attrs, disc))
        args = []
        if rename_all:
            args.append('rename_all = "%s"' % rename_all)
        if singleton:
            args.append('singleton = "%s"' % singleton)
        if r.random() < 0.2:
            args.append('crate = ' + r.choice(['measured', '::measured']))
        r.shuffle(args)
        if not args and r.random() < 0.2:
            head = '#[label()]\n'
        else:
            head = lists(r, 'label', args, '')
        name = r.choice(['Op', 'Kind', 'StatusCode', 'E', 'lower', 'V1', 'Value', 'Label'])
        src = '#[derive(Clone, Copy, PartialEq, Debug, measured::FixedCardinalityLabel)]\n'
        if rep:
            head = ('#[repr(%s)]\n' % rep) + head if r.random() < 0.5 else head + '#[repr(%s)]\n' % rep
        src += head + 'pub enum %s {\n' % name
        for ident, attrs, disc in vs:
            src += attrs + '    %s%s,\n' % (ident, disc)
        src += '}\n'
        out += 'pub mod e%d {\n%s' % (e, src)
        out += '    pub fn run(j: &mut dsup::Judge) {\n        j.src = %s;\n' % plain_lit(src)
        out += '        const ALL: &[%s] = &[%s];\n' % (name, ', '.join('%s::%s' % (name, v[0]) for v in vs))
        out += '        const TEXTS: &[&str] = &[%s];\n' % ', '.join(plain_lit(t) for t in texts)
        out += '        j.label_enum(ALL, TEXTS);\n'
        if singleton and len(set(texts)) == len(texts):
            out += '        j.singleton(ALL, "%s", TEXTS);\n' % singleton
        out += '    }\n}\n'
        calls += '    e%d::run(j);\n' % e
    return out + 'pub fn run(j: &mut dsup::Judge) {\n%s}\n' % calls


# ---------------------------------------------------------------- C14: label groups

PRELUDE = '''//! generated
use measured::FixedCardinalityLabel;
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum E1 { OnlyOne }
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(rename_all = "kebab-case")]
pub enum E2 { FirstOf, SecondOf }
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "e3")]
pub enum E3 { Ok = 200, #[label(rename = "té\\"a")] Teapot, Broken = 500 }
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum E5 { A, B, C, D, E }
'''
ENUMS = {
    'E1': [('OnlyOne', 'only_one')],
    'E2': [('FirstOf', 'first-of'), ('SecondOf', 'second-of')],
    'E3': [('Ok', '200'), ('Teapot', 'té"a'), ('Broken', '500')],
    'E5': [(x, x.lower()) for x in 'ABCDE'],
}
FIELDS = ['kind', 'route', 'user', 'status', 'index', 'index1', 'card', 'mul', 'value', 'value_index', 'v', 'x', 'dynamic_index0', 'new', 'set',
          'r#type', 'r#match', 'r#fn', '_x', 'fooBar', 'UPPER', 'a_b', 'aB', '_9', 'label', 'encode', 'decode', 'group', 'name', 'default', 'le',
          'cardinality', 'b__c', 'Some_', 'usize_', 'enc', 'this']
LABELS = ['renamed', '_', 'A', 'le', 'kind_2', 'Route', '__x', 'z9', 'type', 'index', 'value']


def unraw(s):
    return s[2:] if s.startswith('r#') else s


class Field:
    pass


def label_field(r, names, labels, lts):
    f = Field()
    f.ident = r.choice([n for n in FIELDS if n not in names and unraw(n) not in labels])
    names.add(f.ident)
    f.label = unraw(f.ident)
    f.rename = None
    if r.random() < 0.3:
        c = [n for n in LABELS if n not in labels and n != f.label]
        if c:
            f.rename = r.choice(c)
            f.label = f.rename
    labels.add(f.label)
    kind = r.choice(['enum', 'enum', 'enum', 'static', 'reader', 'reader', 'arcreader', 'num', 'strset', 'phf', 'words', 'dyn', 'dyn', 'arcdyn', 'minidyn'])
    f.dyn = kind.endswith('dyn')
    f.default = False
    f.alien = None
    lt = r.choice(lts)
    f.lt = None
    attr = None
    if kind in ('enum', 'static'):
        e = r.choice(list(ENUMS))
        f.ty = e
        f.values = [('%s::%s' % (e, v), t) for v, t in ENUMS[e]]
        f.card = len(f.values)
        f.ctor = 'measured::label::StaticLabelSet::<%s>::new()' % e
        f.set_ty = 'measured::label::StaticLabelSet<%s>' % e
        if kind == 'static':
            attr = 'fixed_with = measured::label::StaticLabelSet<%s>' % e
            f.default = r.random() < 0.5
        else:
            attr = r.choice([None, None, 'fixed'])
            f.default = True
    elif kind in ('reader', 'arcreader', 'words', 'phf', 'strset'):
        ts = distinct_texts(r, r.choice([1, 2, 3, 4, 7]))
        f.ty = "&%s str" % lt
        f.lt = lt
        lits = ', '.join(plain_lit(t) for t in ts)
        f.alien = plain_lit('¿not in the set?')
        if kind == 'reader':
            f.set_ty = r.choice(['lasso::RodeoReader', 'lasso::RodeoReader<lasso::Spur>'])
            f.ctor = 'dsup::rodeo(&[%s])' % lits
        elif kind == 'arcreader':
            f.set_ty = 'std::sync::Arc<lasso::RodeoReader>'
            f.ctor = 'std::sync::Arc::new(dsup::rodeo(&[%s]))' % lits
        elif kind == 'phf':
            # the macro accepts neither duplicates nor an empty list
            f.set_ty = "phf::OrderedSet<&'static str>"
            f.ctor = 'phf::phf_ordered_set! { %s }' % lits
        elif kind == 'strset':
            f.set_ty = "indexmap::IndexSet<&'static str>"
            f.ty, f.lt = "&'static str", None
            f.ctor = '[%s].into_iter().collect::<indexmap::IndexSet<_>>()' % lits
        else:
            f.set_ty = 'dsup::Words'
            f.default = r.random() < 0.5
            if f.default:
                ts = ['w0', 'w1', 'w2']
            f.ctor = 'dsup::Words(&[%s])' % lits
        f.values = [(plain_lit(t), t) for t in ts]
        f.card = len(ts)
        attr = 'fixed_with = ' + f.set_ty
    elif kind == 'num':
        ns = r.sample(range(-50, 1000), r.choice([1, 2, 5]))
        f.ty = 'vh::keys::Num'
        f.set_ty = 'indexmap::IndexSet<vh::keys::Num>'
        f.ctor = '[%s].into_iter().collect::<indexmap::IndexSet<_>>()' % ', '.join('vh::keys::Num(%d)' % n for n in ns)
        f.values = [('vh::keys::Num(%d)' % n, str(n)) for n in ns]
        f.card = len(ns)
        f.alien = 'vh::keys::Num(100000)'
        attr = 'fixed_with = ' + f.set_ty
    else:
        ts = distinct_texts(r, 4, 'd')
        f.ty = "&%s str" % lt
        f.lt = lt
        f.values = [(plain_lit(t), t) for t in ts]
        f.card = None
        f.default = kind != 'minidyn' and r.random() < 0.5
        if kind == 'dyn':
            f.set_ty, f.ctor = 'lasso::ThreadedRodeo', 'lasso::ThreadedRodeo::new()'
        elif kind == 'minidyn':
            f.set_ty, f.ctor = 'lasso::ThreadedRodeo<lasso::MiniSpur>', 'lasso::ThreadedRodeo::<lasso::MiniSpur>::new()'
        else:
            f.set_ty, f.ctor = 'std::sync::Arc<lasso::ThreadedRodeo>', 'std::sync::Arc::new(lasso::ThreadedRodeo::new())'
        attr = 'dynamic_with = ' + f.set_ty
    attrs = [attr] if attr else []
    if f.default and kind != 'enum':
        attrs.append('default')
    if f.rename:
        attrs.append('rename = "%s"' % f.rename)
    r.shuffle(attrs)
    f.attr = lists(r, 'label', attrs, '    ')
    if r.random() < 0.2:
        f.attr = '    /// documented\n' + f.attr
    f.vis = r.choice(['', 'pub ', 'pub ', 'pub(crate) ', 'pub(super) '])
    return f


def groups(r, base, count):
    out, calls = PRELUDE, ''
    for g in range(base, base + count):
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 8, r.choice([13, 17, 22])])
        lts = r.choice([["'a"], ["'a"], ["'x"], ["'a", "'b"], ["'y", "'x", "'a"]])
        names, labels = set(), set()
        fs = [label_field(r, names, labels, lts) for _ in range(n)]
        while len(fs) > 8:
            # the product of the cardinalities has to fit
            c = 1
            for f in fs:
                c *= 1 if f.dyn else max(f.card, 1)
            if c < 1 << 60:
                break
            fs.pop()
        # identities are tuples, which can be hashed up to a length of twelve: a known limit
        over = [f for f in fs if f.dyn][11:]
        fs = [f for f in fs if f not in over]
        used = [l for l in lts if any(f.lt == l for f in fs)]
        gens = '<%s>' % ', '.join(used) if used else ''
        name, sname = r.choice([('Group', 'GroupSet'), ('G', 'S'), ('Labels', 'Value'), ('E', 'Set')])
        args = ['set = ' + sname]
        if r.random() < 0.2:
            args.append('crate = measured')
        r.shuffle(args)
        src = '#[derive(Clone, Copy, PartialEq, Debug, measured::LabelGroup)]\n' + lists(r, 'label', args, '')
        vis = r.choice(['', 'pub ', 'pub(crate) '])
        src_private = not vis
        src += '%sstruct %s%s {\n' % (vis, name, gens)
        for f in fs:
            src += f.attr + '    %s%s: %s,\n' % (f.vis, f.ident, f.ty)
        src += '}\n'
        args = [f.ctor for f in fs if not f.default and f.dyn] + [f.ctor for f in fs if not f.default and not f.dyn]
        new = '%s::new(%s)' % (sname, ', '.join(args))
        card = 'None'
        if not any(f.dyn for f in fs):
            c = 1
            for f in fs:
                c *= f.card
            card = 'Some(%d)' % c
        combos = []
        total = 1
        for f in fs:
            total *= len(f.values)
        for _ in range(40):
            c = tuple(r.randrange(len(f.values)) for f in fs)
            if c not in combos and len(combos) < min(10, total):
                combos.append(c)
        # the extremes of the index range
        for c in (tuple(0 for f in fs), tuple(len(f.values) - 1 for f in fs)):
            if c not in combos:
                combos.append(c)

        def value(c):
            return '%s { %s }' % (name, ', '.join('%s: %s' % (f.ident, f.values[k][0]) for f, k in zip(fs, c)))
        out += 'pub mod g%d {\nuse super::{E1, E2, E3, E5};\n' % g
        out = out.replace('use super::{E1, E2, E3, E5};\n', 'use super::{E1, E2, E3, E5};\n')
        out += src
        out += '    pub fn run(j: &mut dsup::Judge) {\n        j.src = %s;\n' % plain_lit(src)
        out += '        const NAMES: &[&str] = &[%s];\n' % ', '.join(plain_lit(f.label) for f in fs)
        out += '        const TEXTS: &[&[&str]] = &[%s];\n' % ', '.join(
            '&[%s]' % ', '.join(plain_lit(f.values[k][1]) for f, k in zip(fs, c)) for c in combos)
        ret = name + ('<%s>' % ', '.join("'m" for _ in used) if used else '')
        out += "        fn make<'m>(_: &'m (), i: usize) -> %s {\n            match i {\n" % ret
        for i, c in enumerate(combos):
            out += '                %d => %s,\n' % (i, value(c))
        out += '                _ => unreachable!(),\n            }\n        }\n'
        out += '        let set = %s;\n' % new
        for f in fs:
            out += '        let _: &%s = &set.%s;\n' % (f.set_ty, f.ident)
        out += '        let spec = dsup::GroupSpec { names: NAMES, cardinality: %s };\n' % card
        out += '        j.label_group(&spec, set, TEXTS, make);\n'
        if all(f.default for f in fs):
            out += '        j.label_group(&spec, <%s as Default>::default(), TEXTS, make);\n' % sname
        for k, f in enumerate(fs):
            if f.alien:
                out += '        { let mut g = make(&(), 0); g.%s = %s; j.no_encoding(&%s, g); }\n' % (f.ident, f.alien, new)
                break
        out += '    }\n}\n'
        # what is visible from outside of the module of the group is visible in the set
        if not src_private:
            out += 'fn look%d(_s: &g%d::%s) {\n' % (g, g, sname)
            for f in fs:
                if f.vis:
                    out += '    let _: &%s = &_s.%s;\n' % (f.set_ty, f.ident)
            out += '}\n'
        calls += '    g%d::run(j);\n' % g
    return out + 'pub fn run(j: &mut dsup::Judge) {\n%s}\n' % calls


# ---------------------------------------------------------------- C15: metric groups

MPRELUDE = '''//! generated
use std::sync::Arc;
use measured::label::{ComposedGroup, StaticLabelSet};
use measured::metric::histogram::Thresholds;
use measured::metric::name::WithNamespace;
use measured::{Counter, CounterVec, FixedCardinalityLabel, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec, LabelGroup, MetricGroup};
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "op")]
pub enum Op { Get, PutAll, #[label(rename = "d\\"el")] Del }
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = RouteSet)]
pub struct Route<'a> {
    #[label(fixed_with = lasso::RodeoReader)]
    route: &'a str,
    op: Op,
}
fn routes(xs: &[&'static str]) -> RouteSet { RouteSet::new(dsup::rodeo(xs)) }
'''
OPS = [('Get', 'get'), ('PutAll', 'put_all'), ('Del', 'd"el')]
MNAMES = ['requests', 'r#type', 'Errors', '_hidden', 'latency', 'r#match', 'x', 'enc', 'self_', 'aB', 'name', 'in_flight', 'http2', 'err', 'ok', 'le',
          'count', 'sum', 'bucket']
NS = ['http', 'db', 'a_b', 'x', 'Ns', 'app:main', '_p', 'r']
DOCS = ['Number of requests.', 'Weird "quotes" and \\ backslash', 'größe → 日', 'x', 'multi word text, with commas', '{braces="yes"}', '# TYPE foo counter',
        'trailing dot .', '\\n is no line feed', 'tab\there']


class M:
    """state of one generated module"""

    def __init__(self, r, base):
        self.r, self.out, self.seq = r, MPRELUDE, base * 100000
        self.n = 0

    def uid(self):
        self.seq += 1
        return self.seq


class Fam:
    def __init__(self, name, help, typ, series, bounds=None):
        self.name, self.help, self.typ, self.series, self.bounds = name, help, typ, series, bounds

    def code(self, prefix, recorded):
        h = 'Some(%s)' % plain_lit(self.help) if self.help is not None else 'None'
        n = plain_lit(prefix + self.name)
        ser = []
        for labels, fresh, rec in self.series:
            v = rec if recorded else fresh
            if v is None:
                continue
            l = '&[%s]' % ', '.join('(%s, %s)' % (plain_lit(a), plain_lit(b)) for a, b in labels)
            if self.bounds is None:
                ser.append('(%s, %r)' % (l, float(v)))
            else:
                ser.append('(%s, &[%s])' % (l, ', '.join('%r' % float(x) for x in v)))
        s = '&[%s]' % ', '.join(ser)
        if self.bounds is None:
            return 'dsup::plain(%s, %s, "%s", %s)' % (n, h, self.typ, s)
        return 'dsup::hist(%s, %s, &[%s], %s)' % (n, h, ', '.join('%r' % float(b) for b in self.bounds), s)


def docs(r):
    """(attributes, help)"""
    k = r.choice([0, 0, 1, 1, 1, 2, 3])
    if not k:
        return '', None
    style = r.choice(['line', 'line', 'line', 'attr', 'block'])
    if style == 'line':
        if r.random() < 0.08:
            k = r.choice([20, 100, 300, 700])
        ls = [r.choice(DOCS + ['']) for _ in range(k)]
        raw = [(' ' + l) if l else '' for l in ls]
        if not ''.join(raw).strip():
            raw[0] = ' something'
        # blanks at the end of a line, lines of blanks, and lines written as attributes belong to the text as well
        raw = [x + r.choice(['', '', '', '', '', ' ', '   ']) for x in raw]
        return ''.join('    ///%s\n' % x if r.random() < 0.9 else '    #[doc = %s]\n' % lit(r, x) for x in raw), ''.join(raw).strip()
    if style == 'attr':
        t = r.choice(DOCS)
        if r.random() < 0.1:
            # longer than any line
            t = ' '.join(r.choice(DOCS) for _ in range(r.choice([5, 30, 300, 900])))
        sp = r.choice(['', ' ', '  '])
        return '    #[doc = %s]\n' % lit(r, sp + t + r.choice(['', ' '])), t
    t = ' ' + '\n     * '.join(r.choice(DOCS) for _ in range(k)) + ' '
    return '    /**%s*/\n' % t, t.strip()


def bounds(r, n):
    return sorted(r.sample([0.005, 0.1, 0.25, 1.0, 2.5, 10.0, 100.0, -1.0, 1e9], n))


class Struct:
    """one generated metric group: its type, how to build it, what it exports"""
    pass


def metric_field(m, args):
    """-> dict(ty, attrs(list), lit(expr), default(bool), rec(fn path -> stmts), fam)"""
    r = m.r
    kind = r.choice(['counter', 'counter', 'gauge', 'fgauge', 'hist', 'cvec', 'cvec', 'gvec', 'fvec', 'hvec', 'rvec', 'rhvec', 'ocounter', 'ocounter_none', 'ocvec'])
    u = m.uid() % 1000000
    d = {}
    one = lambda rec, fresh=0: [((), fresh, rec)]
    if kind in ('counter', 'gauge', 'fgauge'):
        ty, typ, v, st = {'counter': ('Counter', 'counter', u, 'inc_by(%d)' % u), 'gauge': ('Gauge', 'gauge', -u, 'set(-%d)' % u),
                          'fgauge': ('FloatGauge', 'gauge', u + 0.5, 'set(%r)' % (u + 0.5))}[kind]
        d.update(ty=ty, default=True, rec=lambda p: '%s.%s;' % (p, st), fam=(typ, one(v), None))
        opts = [None, None, 'init = %s::new()' % ty, 'metadata = ()']
        if args and kind == 'counter':
            # starts at the constructor's argument
            opts.append('init = { let c = Counter::new(); c.inc_by(start); c }')
        a = r.choice(opts)
        if a and 'start' in a:
            d['fam'] = ('counter', one(v + 41, 41), None)
            d['default'] = False
        d.update(init=a, lit='%s::new()' % ty)
    elif kind == 'hist':
        n = r.choice([1, 2, 3])
        b = bounds(r, n)
        bs = ', '.join('%r' % x for x in b)
        obs = [r.choice(b), r.choice([0.0, 3.0, 5000.0])]
        d.update(ty='Histogram<%d>' % n, default=False, rec=lambda p: ' '.join('%s.observe(%r);' % (p, o) for o in obs),
                 fam=('histogram', [((), [], obs)], b), lit='Histogram::with_metadata(Thresholds::with_buckets([%s]))' % bs)
        d['init'] = r.choice(['metadata = Thresholds::with_buckets([%s])' % bs, 'init = ' + d['lit']])
        if args and n == 2 and r.random() < 0.7:
            b = [1.5, 2.5]
            d['init'] = 'metadata = Thresholds::with_buckets(limits)'
            d['fam'] = ('histogram', [((), [], obs)], b)
            d['lit'] = 'Histogram::with_metadata(Thresholds::with_buckets([1.5, 2.5]))'
    elif kind in ('cvec', 'gvec', 'fvec', 'ocvec'):
        ty, typ = {'cvec': ('CounterVec', 'counter'), 'gvec': ('GaugeVec', 'gauge'), 'fvec': ('FloatGaugeVec', 'gauge'), 'ocvec': ('CounterVec', 'counter')}[kind]
        touched = [o for o in range(3) if r.random() < 0.6]
        ser, st = [], []
        for o in touched:
            v = u * 10 + o
            if kind in ('cvec', 'ocvec'):
                st.append('inc_by(Op::%s, %d);' % (OPS[o][0], v))
            elif kind == 'gvec':
                v = -v
                st.append('set(Op::%s, %d);' % (OPS[o][0], v))
            else:
                v += 0.5
                st.append('set(Op::%s, %r);' % (OPS[o][0], v))
            ser.append(((('op', OPS[o][1]),), None, v))
        t = ty + '<StaticLabelSet<Op>>'
        d.update(ty=t, default=True, fam=(typ, ser, None), lit='%s::new()' % ty, rec=lambda p: ' '.join('%s.%s' % (p, s) for s in st))
        d['init'] = r.choice([None, 'init = %s::sparse()' % ty, 'init = %s::dense()' % ty, 'label_set = StaticLabelSet::new()', 'metadata = ()',
                              'metadata = (), label_set = StaticLabelSet::new()'])
        if kind == 'ocvec':
            d.update(ty='Option<%s>' % t, init='init = Some(%s::new())' % ty, lit='Some(%s::new())' % ty, default=False,
                     rec=lambda p: ' '.join('%s.as_ref().unwrap().%s' % (p, s) for s in st))
    elif kind in ('rvec', 'rhvec'):
        rs = ['/a%d' % u, '/b%d' % u]
        rl = 'routes(&[%s])' % ', '.join(plain_lit(x) for x in rs)
        ser, st = [], []
        b = bounds(r, 2)
        bs = ', '.join('%r' % x for x in b)
        for i, x in enumerate(rs):
            o = r.randrange(3)
            lab = (('route', x), ('op', OPS[o][1]))
            key = 'Route { route: %s, op: Op::%s }' % (plain_lit(x), OPS[o][0])
            if kind == 'rvec':
                st.append('inc_by(%s, %d);' % (key, u + i))
                ser.append((lab, None, u + i))
            else:
                st.append('observe(%s, %r);' % (key, b[i]))
                ser.append((lab, None, [b[i]]))
        if kind == 'rvec':
            d.update(ty='CounterVec<RouteSet>', fam=('counter', ser, None), lit='CounterVec::with_label_set(%s)' % rl)
            d['init'] = r.choice(['label_set = %s' % rl, 'init = CounterVec::sparse_with_label_set(%s)' % rl, 'label_set = %s, metadata = ()' % rl])
        else:
            d.update(ty='HistogramVec<RouteSet, 2>', fam=('histogram', ser, b),
                     lit='HistogramVec::with_label_set_and_metadata(%s, Thresholds::with_buckets([%s]))' % (rl, bs))
            d['init'] = r.choice(['label_set = %s, metadata = Thresholds::with_buckets([%s])' % (rl, bs),
                                  'metadata = Thresholds::with_buckets([%s]), label_set = %s' % (bs, rl), 'init = ' + d['lit']])
        d.update(default=False, rec=lambda p: ' '.join('%s.%s' % (p, s) for s in st))
    elif kind == 'hvec':
        b = bounds(r, 3)
        bs = ', '.join('%r' % x for x in b)
        o = r.randrange(3)
        d.update(ty='HistogramVec<StaticLabelSet<Op>, 3>', default=False, fam=('histogram', [((('op', OPS[o][1]),), None, [b[1], 7.0])], b),
                 lit='HistogramVec::with_metadata(Thresholds::with_buckets([%s]))' % bs,
                 rec=lambda p: '%s.observe(Op::%s, %r); %s.observe(Op::%s, 7.0);' % (p, OPS[o][0], b[1], p, OPS[o][0]))
        d['init'] = r.choice(['metadata = Thresholds::with_buckets([%s])' % bs, 'init = ' + d['lit']])
    elif kind == 'ocounter':
        d.update(ty='Option<Counter>', default=False, fam=('counter', one(u), None), lit='Some(Counter::new())', init='init = Some(Counter::new())',
                 rec=lambda p: '%s.as_ref().unwrap().inc_by(%d);' % (p, u))
    else:
        d.update(ty='Option<Counter>', default=True, fam=('counter', [], None), lit='None', init=r.choice([None, 'init = None']), rec=lambda p: '')
    d['hist'] = d['fam'][0] == 'histogram'
    return d


def wrap(m, inner, r):
    """a group type around the struct: (type, expr, [(prefix, struct, recorded)])"""
    k = r.choice(['plain', 'plain', 'plain', 'arc', 'ref', 'some', 'none', 'pair', 'ns', 'optarc', 'arcref'])
    t, e, parts = inner.ty, '%s()' % inner.mk, [('', inner, True)]
    if k == 'arc':
        return 'Arc<%s>' % t, 'Arc::new(%s)' % e, parts
    if k == 'ref':
        return "&'static %s" % t, '&*Box::leak(Box::new(%s))' % e, parts
    if k == 'some':
        return 'Option<%s>' % t, 'Some(%s)' % e, parts
    if k == 'optarc':
        return 'Option<Arc<%s>>' % t, 'Some(Arc::new(%s))' % e, parts
    if k == 'arcref':
        return "Arc<&'static %s>" % t, 'Arc::new(&*Box::leak(Box::new(%s)))' % e, parts
    if k == 'none':
        return 'Option<%s>' % t, 'None', []
    if k == 'ns':
        n = r.choice(NS)
        return 'WithNamespace<%s>' % t, 'WithNamespace::new("%s", %s)' % (n, e), [(n + '_', inner, True)]
    if k == 'pair':
        o = struct(m, 0)
        p = [('', inner, True), ('', o, True)]
        a, b = (t, e), (o.ty, '%s()' % o.mk)
        if r.random() < 0.5:
            a, b, p = b, a, p[::-1]
        return 'ComposedGroup<%s, %s>' % (a[0], b[0]), 'ComposedGroup(%s, %s)' % (a[1], b[1]), p
    return t, e, parts


def struct(m, depth):
    r = m.r
    s = Struct()
    s.n = m.n = m.n + 1
    s.name = 'M%d' % s.n
    s.mk = 'mk_%d' % s.n
    form = r.choice(['new', 'new_args', 'literal', 'literal'])
    args = form == 'new_args'
    fields, used = [], set()
    n = r.choice([0, 1, 2, 3, 4, 6]) if depth else r.choice([0, 1, 2, 3])
    if r.random() < 0.06:
        n, depth = r.choice([9, 14, 18]), 0
    s.parts = []   # Fam, or (prefix, struct, recorded)
    s.generic = None
    lifetime = False
    lt, tp = r.choice(["'g", "'a", "'enc", "'__tmp_lt"]), r.choice(['T', 'T', 'Enc', 'E', 'MetricGroupEncodingT'])
    s.hist = False
    body, lits, recs = '', [], []
    default_ok = True
    for _ in range(n):
        if depth and r.random() < 0.4:
            inner = struct(m, depth - 1)
            ns = r.choice([None, r.choice(NS)])
            ident = 'group%d' % len(fields)
            if inner.default_ok and form != 'literal' and r.random() < 0.3:
                # left to its Default
                t, e, parts, init = inner.ty, '', [('', inner, False)], None
            else:
                t, e, parts = wrap(m, inner, r)
                init = 'init = %s' % e
                default_ok = False
            if t == inner.ty and form != 'new' and s.generic is None and init and r.random() < 0.3:
                s.generic = t
                decl = tp
            elif t.startswith("&'static") and not lifetime and r.random() < 0.5:
                lifetime = True
                decl = t.replace("'static", lt, 1)
            else:
                decl = t
            attrs = ['namespace = "%s"' % ns if ns else 'flatten']
            if form != 'literal' and init:
                if decl == tp:
                    init = 'init = inner'
                    s.generic_expr = e
                attrs.append(init)
            elif form == 'literal' and decl == tp:
                s.generic_expr = e
            r.shuffle(attrs)
            doc = '    /// help of a group is not exported\n' if r.random() < 0.3 else ''
            body += doc + lists(r, 'metric', attrs, '    ') + '    %s: %s,\n' % (ident, decl)
            lits.append('%s: %s' % (ident, e))
            s.parts += [((ns + '_' if ns else '') + p, x, rec) for p, x, rec in parts]
            fields.append(ident)
            s.hist = s.hist or any(x.hist for _, x, _ in parts) or inner.hist or 'Composed' in t
            continue
        d = metric_field(m, args)
        base = r.choice(MNAMES)
        ident = ('r#%s' % unraw(base)) if base.startswith('r#') and base not in used else '%s_%d' % (unraw(base), m.uid())
        used.add(base)
        name = unraw(ident)
        attrs = []
        if r.random() < 0.3 or ident.startswith('r#'):
            name = r.choice(['renamed_%d', 'R:%d', '_%d', 'x_%d_total', 'type_%d']) % m.uid()
            attrs.append('rename = "%s"' % name)
        if ident.startswith('r#') and r.random() < 0.6:
            # keep the raw name, unique within the module by its namespace only: use it once
            if ident not in m.__dict__.setdefault('raws', set()):
                m.raws.add(ident)
                name, attrs = unraw(ident), []
        if form != 'literal' and d['init']:
            attrs.append(d['init'])
        if d['init'] and 'start' in d['init'] and form == 'literal':
            raise AssertionError
        if not d['default']:
            default_ok = False
        if form != 'literal' and not d['init'] and not d['default']:
            raise AssertionError
        r.shuffle(attrs)
        doc, h = docs(r)
        at = lists(r, 'metric', attrs, '    ')
        body += (doc + at) if r.random() < 0.7 else (at + doc)
        body += '    %s: %s,\n' % (ident, d['ty'])
        lits.append('%s: %s' % (ident, d['lit']))
        rec = d['rec']('s.' + ident)
        if rec:
            recs.append(rec)
        typ, ser, b = d['fam']
        s.parts.append(Fam(name, h, typ, ser, b))
        s.hist = s.hist or d['hist']
        fields.append(ident)
    gl = ([lt] if lifetime else []) + ([tp] if s.generic else [])
    gens = '<%s>' % ', '.join(gl) if gl else ''
    where = ' where %s: Sized' % tp if s.generic and r.random() < 0.3 else ''
    s.ty = s.name + ('<%s>' % ', '.join((["'static"] if lifetime else []) + ([s.generic] if s.generic else [])) if gl else '')
    margs = []
    newargs = []
    vals = []
    if form == 'new_args':
        newargs = ['start: u64', 'limits: [f64; 2]']
        vals = ['41', '[1.5, 2.5]']
        if s.generic:
            newargs.append('inner: %s' % tp)
            vals.append(s.generic_expr)
        margs.append('new(%s)' % ', '.join(newargs))
    elif form == 'new':
        margs.append('new()')
    if r.random() < 0.2:
        margs.append('crate = measured')
    r.shuffle(margs)
    s.default_ok = default_ok and not gl and form == 'new'
    derive_default = default_ok and not gl and form == 'literal' and all(not isinstance(p, tuple) for p in s.parts) and r.random() < 0.5
    s.default_ok = s.default_ok or derive_default
    # a lifetime in an init expression that the impl does not know: only literals use 'g
    s.src = '#[derive(%sMetricGroup)]\n' % ('Default, ' if derive_default else '')
    s.src += lists(r, 'metric', margs, '')
    s.src += 'pub struct %s%s%s {\n%s}\n' % (s.name, gens, where, body)
    if s.default_ok and not derive_default:
        s.src += 'impl Default for %s { fn default() -> Self { Self::new() } }\n' % s.name
    ctor = '%s::new(%s)' % (s.name, ', '.join(vals)) if form != 'literal' else '%s { %s }' % (s.name, ', '.join(lits))
    s.src_mk = 'fn %s() -> %s {\n    let s = %s;\n    %s\n    s\n}\n' % (s.mk, s.ty, ctor, '\n    '.join(recs))
    m.out += s.src + s.src_mk
    return s


def fams(s, prefix, recorded):
    o = []
    for p in s.parts:
        if isinstance(p, Fam):
            o.append(p.code(prefix, recorded))
        else:
            pre, inner, rec = p
            o += fams(inner, prefix + pre, rec and True)
    return o


def subsrc(s):
    o = s.src
    for p in s.parts:
        if not isinstance(p, Fam):
            o = subsrc(p[1]) + o
    return o


def metrics(r, base, count):
    m = M(r, base)
    calls = ''
    for k in range(count):
        m.raws = set()
        s = struct(m, r.choice([1, 1, 2, 2, 3]))
        f = fams(s, '', True)
        m.out += 'fn run_%d(j: &mut dsup::Judge) {\n    j.src = %s;\n' % (s.n, plain_lit(subsrc(s)))
        m.out += '    let want: Vec<dsup::WantFam> = vec![%s];\n    let s = %s();\n' % (',\n        '.join(f), s.mk)
        m.out += '    j.text_group("text", &s, &want);\n    j.text_writer_group("text to a writer", &s, &want);\n'
        if not s.hist:
            m.out += '    j.proto_group("protobuf", &s, &want);\n'
        m.out += '    j.text_group("in a namespace", &WithNamespace::new("ns", WithNamespace::new("outer", &s)), &dsup::prefixed("ns_outer_", &want));\n'
        m.out += '    j.text_group("absent", &None::<&%s>, &[]);\n' % s.ty
        m.out += '    j.text_group("shared", &Some(Arc::new(&s)), &want);\n'
        if not s.hist:
            m.out += '    j.proto_group("protobuf in a namespace", &WithNamespace::new("outer_ns", &s), &dsup::prefixed("outer_ns_", &want));\n'
        m.out += '}\n'
        calls += '    run_%d(j);\n' % s.n
    return m.out + 'pub fn run(j: &mut dsup::Judge) {\n%s}\n' % calls
