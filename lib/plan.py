"""Which phases decide which property."""

REL = 'release'   # optimised, debug assertions and overflow checks on
PLAIN = 'plain'   # as shipped


def R(b, ms, crate='core', profile=REL, cpus=None, **k):
    return dict(kind='run', crate=crate, bin=b, budget_ms=ms, profile=profile, cpus=cpus, **k)


def M(b, seeds, crate='core', flags='', timeout=400, **k):
    """interpreted (undefined behaviour, data races, weak memory, deadlock, leaks), one run per seed"""
    return dict(kind='miri', crate=crate, bin=b, seeds=seeds, miriflags=flags, timeout=timeout, **k)


def S(kind, b, ms, crate='core', **k):
    """sanitized: kind is tsan or asan (with leak detection)"""
    return dict(kind=kind, crate=crate, bin=b, budget_ms=ms, **k)


PLAN = {}


def P(pid, title, technique, level, note, quick, thorough=None, assumptions=(), gen=None):
    PLAN[pid] = dict(title=title, technique=technique, level=level, note=note, quick=quick, thorough=thorough,
                     assumptions=list(assumptions), gen=gen)


def phases_of(prop, tier):
    p = PLAN[prop]
    if tier == 'quick' or not p['thorough']:
        return p['quick']
    return p['thorough']


def std(b, ms=4000, one_cpu=True, crate='core', **k):
    """the usual shape: all cpus, then one cpu (4 shards, pure preemption)"""
    q = [R(b, ms, crate, **k)]
    if one_cpu:
        q.append(R(b, ms // 3, crate, cpus=1, **k))
    return q


def deep(b, crate='core', ms=60000, **k):
    return [R(b, ms, crate, **k), R(b, ms // 2, crate, profile=PLAIN, **k), R(b, ms // 3, crate, cpus=1, **k), R(b, ms // 3, crate, cpus=2, **k),
            R(b, ms // 3, crate, cpus=4, **k)]


P('C01', 'Counter increments are never lost, duplicated or misread', 'concurrent stress with conservation ledgers and scrape-interval monitor',
  'exploration', 'Runs the real counters; the verdict is a per-series ledger of started/finished increments around every scrape plus exact final totals. Explores schedules by stress, not exhaustively.',
  std('c01', 6000), deep('c01'))

P('C02', 'Integer gauge operations are atomic and linearizable', 'linearizability checking of recorded concurrent histories',
  'exploration', 'Short concurrent histories on real gauges with unique set values, each decided by an exact linearizability search; long histories by conservation.',
  std('gauge', 6000, phase='C02'), deep('gauge', phase='C02'))
P('C03', 'Float gauge updates are atomic and follow f64 arithmetic', 'linearizability checking of recorded histories plus bitwise f64 replay',
  'exploration', 'Concurrent histories decided by an exact linearizability search, sequential ones by replaying the same f64 operations bit for bit.',
  std('gauge', 6000, phase='C03'), deep('gauge', phase='C03'))
P('C04', 'Histogram buckets, count and sum are right for every observation', 'model-based runtime monitoring of generated observation sequences',
  'generated', 'Every exported histogram is compared with an independent model (count of x<=le, bitwise f64 sum) over generated bounds and observations biased to boundaries and special values.',
  std('c04', one_cpu=False), deep('c04'))
P('C05', 'A histogram scrape is one consistent snapshot', 'concurrent stress with an online snapshot-consistency monitor',
  'exploration', 'Observations carry unique powers so that every scraped sum identifies the very set of observations it must be consistent with.',
  std('c05', 6000), deep('c05'))
P('C06', 'Timers record exactly one observation of the true elapsed time', 'bracketing monitor around every timer event',
  'exploration', 'Each timer is bracketed by clock reads; exported count and sum must match the brackets for every way a timer ends.',
  std('c06'), deep('c06'))
P('C07', 'Each distinct label group has exactly one series of its own', 'model-based sequential histories and concurrent first-touch races against a per-label ledger',
  'exploration', 'Real vecs under sequential model comparison and under racing creation with colliding hashes; the per-series ledger must match exactly.',
  std('seq', 3000, False, phase='C07') + std('conc', 8000, phase='C07'), deep('seq', phase='C07') + deep('conc', phase='C07'))
P('C08', 'Removing a series is exact: handed out once, others untouched', 'model-based histories and removal races with a conservation ledger',
  'exploration', 'Every recording carries weight in one ledger: removed states plus final live series must account for each exactly once.',
  std('seq', 3000, False, phase='C08') + std('conc', 8000, phase='C08', env={'VH_HANG': 'violation'}),
  deep('seq', phase='C08') + deep('conc', phase='C08', env={'VH_HANG': 'violation'}))
P('C09', 'Dense, sparse and default vecs and all recording paths are equivalent', 'differential monitoring of the same history on every representation and path',
  'generated', 'One generated history is executed on dense, sparse and default vecs through all recording paths; exports are compared after every step.',
  std('seq', 4000, False, phase='C09'), deep('seq', phase='C09'))
P('C10', 'Reported cardinality matches the live series', 'model-based monitoring of cardinality after every operation',
  'generated', 'A set model of live series predicts cardinality, its upper bound and the exported series after every operation; concurrent readings are bracketed by the known stage of every series.',
  std('seq', 4000, False, phase='C10') + std('conc', 8000, phase='C10', env={'VH_HANG': 'violation'}),
  deep('seq', phase='C10') + deep('conc', phase='C10', env={'VH_HANG': 'violation'}))
P('C23', 'A concurrent scrape is complete and invents nothing', 'concurrent stress with interval monitors around each scrape',
  'exploration', 'Each scrape is judged by what was known created before it began and started before it ended.',
  std('conc', 8000, phase='C23', env={'VH_HANG': 'violation'}), deep('conc', phase='C23', env={'VH_HANG': 'violation'}))
P('C11', 'Label group encoding is a bijection onto its cardinality', 'bijection monitor over generated label sets, complete for small sets',
  'generated', 'Runs encode/decode/encode_dense/decode_dense of derived and composed sets of generated sizes (complete up to 2000 groups, the edge of the machine word beyond) and checks injectivity, inversion, range and rejection.',
  std('c11', 4000, False) + std('c11', 3000, False, profile=PLAIN), deep('c11'))
P('C16', 'Text exposition is well formed and lossless for every label value', 'round trip of generated registries through an independent exposition parser',
  'generated', 'Registries with hostile label values are exported by the real encoders and read back by a strict parser written for this purpose; labels must come back exactly.',
  std('text', 4000, False, phase='C16'), deep('text', phase='C16'))
P('C18', 'Exported numbers are exact', 'round trip of generated numbers through an independent exposition parser',
  'generated', 'Extreme and random integers and floats in every numeric position are read back from the real output with exact comparison (bit equality for floats).',
  std('text', 4000, False, phase='C18'), deep('text', phase='C18'))
P('C19', 'Every family is a contiguous, complete, duplicate-free block', 'online grammar monitor over the output of generated registries',
  'generated', 'A block grammar monitor reads the output of generated registries of all types; blocks, types, order of bounds, duplicates and separators are checked.',
  std('text', 4000, False, phase='C19'), deep('text', phase='C19'))
P('C22', 'Metric and label names are validated and composed exactly', 'monitor over generated names against an independent validator and composer',
  'generated', 'Every constructor is driven with generated valid, almost valid and hostile names and compared with a validator written from the documented grammar; composed names are compared in length and bytes at every nesting depth.',
  std('names', 4000, False), deep('names'))
HANG = {'VH_HANG': 'violation'}


def both(phase, ms=3000, **k):
    return [R('text' if phase in ('C17', 'C18') else 'reuse', ms, phase=phase, **k), R('proto', ms, 'proto', phase=phase, **k)]


def both_deep(phase, ms=60000, **k):
    b = 'text' if phase in ('C17', 'C18') else 'reuse'
    return [R(x, ms, c, phase=phase, profile=p, **k) for x, c in ((b, 'core'), ('proto', 'proto')) for p in (REL, PLAIN)]


P('C17', 'Help text cannot break or alter the exposition', 'round trip of generated help texts through independent text and protobuf readers',
  'generated', 'Hostile help strings are exported by the real text and protobuf encoders and read back by independent parsers; every other line must be unaffected.',
  both('C17'), both_deep('C17'))
PLAN['C18']['quick'] += [R('proto', 2000, 'proto', phase='C18')]
PLAN['C18']['thorough'] += [R('proto', 40000, 'proto', phase='C18')]
P('C20', 'Exporting is read-only, repeatable and leaves encoders reusable', 'differential monitor over sequences of exports through reused encoders',
  'generated', 'Random sequences of exports, finishes and flushes through one encoder are compared with fresh encoders and with the recorded state; outputs handed out are kept and compared again at the end.',
  both('C20'), both_deep('C20'))
P('C21', 'Writer failures are reported and harm nothing', 'fault injection at every write call with an output and state monitor',
  'fault_enumeration', 'For generated registries, derived and composed groups, the process collector and the runtime collectors every write call of the export is failed in six ways (error once, for ever, after a short write, full device; short and interrupted writes): result, output prefix, later exports and locks are judged.',
  both('C21', env=HANG) + [R('c21', 1000, 'process', env=HANG), R('c21', 1000, 'tokio', env=HANG)],
  both_deep('C21', env=HANG) + [R('c21', 20000, 'process', env=HANG), R('c21', 20000, 'tokio', env=HANG)])
P('C24', 'Protobuf export decodes to exactly the recorded metrics', 'round trip of generated registries through an independent protobuf decoder',
  'generated', 'Generated registries, including strings at every length prefix boundary and empty families, are decoded by an independent decoder and compared with the recorded state.',
  [R('proto', 4000, 'proto', phase='C24'), R('proto', 2000, 'proto', phase='C24', profile=PLAIN)],
  [R('proto', 90000, 'proto', phase='C24'), R('proto', 60000, 'proto', phase='C24', profile=PLAIN)])
P('C25', 'Derived and hand-written metrics survive every encoder unchanged', 'differential monitor across encoders and wrappings',
  'generated', 'Each generated registry is exported by the text, buffered text and protobuf encoders, directly and by reference, under 14 wrappings (references, shared pointers, options, pairs, namespaces); all are compared with the recorded state and with each other.',
  [R('proto', 5000, 'proto', phase='C25')], [R('proto', 90000, 'proto', phase='C25'), R('proto', 60000, 'proto', phase='C25', profile=PLAIN)])
P('C12', 'Runtime label sets map values to indices one to one', 'bijection and stability monitor over runtime sets, including racing first uses and full sets',
  'exploration', 'Every provided runtime set is filled with generated values and judged for index range, injectivity, inversion and absence; interners are raced and driven until full.',
  std('c12', 4000), deep('c12'))
P('C26', 'Process metrics report the true state of the chosen process', 'bracketing monitor: independent readings of /proc around every export of processes with generated histories',
  'generated', 'Child processes go through random histories (descriptors, limits, memory, threads, CPU, names, exit); every export of the stopped child must equal an independent reading of /proc.',
  [R('c26', 6000, 'process')], [R('c26', 90000, 'process'), R('c26', 60000, 'process', profile=PLAIN)])
P('C27', "Tokio metrics report the runtime's own counters under the right labels", 'bracketing monitor: RuntimeMetrics read around every export of frozen, loaded, registering and dying runtimes',
  'generated', 'Runtimes of random configuration are driven through random work and held in frozen states; every exported series must equal RuntimeMetrics there, and lie between two readings of it while the runtimes run or shut down.',
  [R('c27', 6000, 'tokio')], [R('c27', 90000, 'tokio'), R('c27', 60000, 'tokio', profile=PLAIN), R('c27', 30000, 'tokio', cpus=2)])
P('C29', 'Metric states are created once and dropped exactly once', 'lifetime ledger kept by a user defined metric type',
  'exploration', 'Every state a vec creates reports its creation, use, guards and drop to a ledger, through sequential histories of all operations and through races of touches, removals, guards, panicking constructors and teardown.',
  std('life', 4000) + [M('life', 8)], deep('life') + [M('life', 64, timeout=1200), S('asan', 'life', 20000)])
P('C30', 'Recording into existing series does not allocate', 'counting allocator around every recording call',
  'generated', 'Every recording method over every fixed label set and representation is bracketed by a counting allocator; memory is compared before and after recordings, scrapes and churn of series.',
  std('memory', 4000), deep('memory'), assumptions=['the first waits on a parking_lot lock may set up its wait queue (at most 16 allocations per thread are tolerated under contention where locks are involved)'])
P('C31', 'No valid use blocks forever or panics', 'progress monitors (thread activity, CPU time per operation) and panic monitor over hostile concurrent workloads with panicking user code',
  'exploration', 'Mixed operations of all kinds, endless readers against creators and the reverse, timers across other operations, slow writers and user callbacks that panic at random; every thread must finish and the vec must work with the right values afterwards. Interpreted runs detect deadlocks exactly.',
  std('live', 6000, env=HANG) + [M('live', 8)], deep('live', env=HANG) + [M('live', 64, timeout=1500)],
  assumptions=['a guard of a sparse vec is not held across other calls into the same vec by the same thread (a documented lock)'])

T = 'tsan'
EXPLOIT = dict(kind='exploit', crate='exploit', bin='*')
P('C28', 'No data race or undefined behaviour through the safe API', 'undefined-behaviour interpreter (Miri, many schedules with weak memory), ThreadSanitizer and AddressSanitizer over workloads of the whole API',
  'exploration', 'Random programs over the whole safe API, including foreign identifiers, invented indices and lying user implementations, are interpreted under many schedules and run natively under the sanitizers; safe programs that would be unsound must be refused by the compiler or run clean when interpreted.',
  [EXPLOIT, M('c28', 16), M('conc', 6, phase='C07'), M('conc', 6, phase='C23'), M('gauge', 4, phase='C03'), M('c05', 4),
   S(T, 'c28', 4000), S(T, 'conc', 3000, phase='C08'), S(T, 'c05', 2000),
   S('asan', 'c28', 4000), S('asan', 'text', 3000, phase='C16'), S('asan', 'proto', 3000, 'proto', phase='C24')],
  [EXPLOIT, M('c28', 400, timeout=3000)] + [M('conc', 96, phase=x, timeout=1500) for x in ('C07', 'C08', 'C23')]
  + [M('gauge', 96, phase=x, timeout=1500) for x in ('C02', 'C03')] + [M('c05', 48, timeout=1500), M('c06', 24, timeout=1500), M('c01', 48, timeout=1500), M('life', 48, timeout=1500)]
  + [S(T, b, 30000, phase=x) for b, x in (('c28', ''), ('conc', 'C07'), ('conc', 'C08'), ('conc', 'C23'), ('c05', ''), ('gauge', 'C02'), ('gauge', 'C03'), ('c01', ''), ('life', ''), ('c12', ''), ('live', ''))]
  + [S('asan', b, 30000, phase=x) for b, x in (('c28', ''), ('conc', 'C08'), ('seq', 'C07'), ('text', 'C16'), ('reuse', 'C20'), ('reuse', 'C21'), ('names', ''), ('c12', ''), ('c11', ''), ('life', ''), ('live', ''))]
  + [S('asan', 'proto', 30000, 'proto', phase='C24'), S('asan', 'proto', 30000, 'proto', phase='C21')],
  assumptions=['Miri interprets the code as compiled for FreeBSD (its Linux futex shim refuses the call parking_lot makes); dependencies are interpreted with it'])

def derived(b):
    return [R(b, 1000, 'gen-derive', compile_is_verdict=True, build_timeout=800)]


P('C13', 'Derived label enums encode and render every variant correctly', 'generated programs judged by a model written by their generator',
  'generated', 'Random enums (names, renames, discriminants, conventions, representations) are compiled with the derive and run; encode, decode, cardinality, visited and exported values must equal the generator model. A valid enum the derive fails to compile is a violation.',
  derived('c13'), gen='derive')
P('C14', 'Derived label groups export the declared names, values and order', 'generated programs judged by a model written by their generator',
  'generated', 'Random label group structs over every kind of label set are compiled with the derive and run; members, constructor, cardinality, visited, decoded and exported labels must equal the generator model.',
  derived('c14'), gen='derive')
P('C15', 'Derived and composed metric groups export the declared families', 'generated programs judged by a model written by their generator',
  'generated', 'Random trees of metric group structs, attributes, doc comments and wrappers are compiled with the derive and exported as text and protobuf; families, order, help, types, labels and values must equal the generator model.',
  derived('c15'), gen='derive')
PLAN['C11']['gen'] = 'derive'
PLAN['C11']['quick'] += [R('c14', 1000, 'gen-derive')]
PLAN['C11']['thorough'] += [R('c14', 1000, 'gen-derive')]


def refused(early, late, typed, **k):
    return dict(kind='refuse', crate='gen-refuse', bin='*', early=early, late=late, typed=typed, **k)


P('C32', 'The derives refuse what they cannot honour', 'fault injection into generated items, with the compiler\'s diagnostics as the event log',
  'generated', 'Random valid items for the three derives are given to the compiler as they are and with one offence put in (unknown, repeated, contradicting, misshapen or misplaced arguments, malformed lists, unsupported shapes, invalid names); every diagnostic is matched with the item it belongs to: the offence must be refused where it is and without a panic, the item without it accepted.',
  [refused(1500, 160, 100)], [refused(6000, 600, 400, timeout=1500)])

# other machines, interpreted: 32 bits, and big-endian
NARROW, BIG = 'i686-unknown-freebsd', 'powerpc64-unknown-freebsd'
for pid, ph in (('C07', M('seq', 2, phase='C07', target=NARROW, timeout=1500)), ('C07', M('conc', 16, phase='C07', target=NARROW, timeout=1500)),
                ('C08', M('conc', 16, phase='C08', target=NARROW, timeout=1500)), ('C10', M('seq', 2, phase='C10', target=NARROW, timeout=1500)),
                ('C12', M('c12', 2, target=NARROW, timeout=1500)), ('C28', M('c28', 32, target=NARROW, timeout=1500)),
                ('C29', M('life', 16, target=NARROW, timeout=1500)), ('C24', M('proto', 8, 'proto', phase='C24', target=BIG, timeout=1500))):
    PLAN[pid]['thorough'].append(ph)
