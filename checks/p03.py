# -*- coding: utf-8 -*-
"""P03 levels <-> events <-> trees vs a recursive tree model."""
import io

from mc import rec
from mc.core import Family, Violation, expect, expect_equal

from hwp5.treeop import ENDEVENT
from hwp5.treeop import STARTEVENT
from hwp5.treeop import build_subtree
from hwp5.treeop import iter_subevents
from hwp5.treeop import prefix_ancestors_from_level
from hwp5.treeop import prefix_event
from hwp5.treeop import tree_events
from hwp5.treeop import tree_events_multi
from hwp5.treeop import prefix_ancestors

PROPERTY = 'P03'
LEVEL = 'exploration'
RULE = ('a case is one level sequence; non-trivial when it has at least '
        'one item')
ASSUMPTIONS = ['tree operations look at levels and identities only']


class Item(object):
    """items compare by identity; equal-looking items must not be mixed up"""
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'i%d' % self.i


def valid_prefix(levels):
    """number of leading items that form a valid sequence"""
    if not levels:
        return 0
    base = levels[0]
    n = 1
    while n < len(levels):
        l = levels[n]
        if l < base or l > levels[n - 1] + 1:
            break
        n += 1
    return n


def model_forest(levels):
    """-> list of (index, [children...]) by nearest preceding lower level"""
    base = levels[0] if levels else 0
    roots = []
    last = {}
    for i, l in enumerate(levels):
        node = (i, [])
        if l == base:
            roots.append(node)
        else:
            last[l - 1][1].append(node)
        last[l] = node
    return roots


def model_events(forest):
    out = []
    for i, kids in forest:
        out.append(('S', i))
        out.extend(model_events(kids))
        out.append(('E', i))
    return out


def model_ancestors(forest, anc=()):
    out = {}
    for i, kids in forest:
        out[i] = list(anc)
        out.update(model_ancestors(kids, tuple(anc) + (i,)))
    return out


def name(ev):
    return {STARTEVENT: 'S', ENDEVENT: 'E'}[ev]


def drain(gen, conv):
    out = []
    err = None
    try:
        for x in gen:
            out.append(conv(x))
    except Exception as e:
        err = e
    return out, err


def run(case):
    levels = case['levels']
    items = [Item(i) for i in range(len(levels))]
    pairs = list(zip(levels, items))
    n = valid_prefix(levels)
    root = Item(-1)

    got, err = drain(prefix_event(iter(pairs), root),
                     lambda x: (name(x[0]), x[1].i))
    anc, aerr = drain(prefix_ancestors_from_level(iter(pairs), root),
                      lambda x: ([a.i for a in x[0]], x[1].i))
    forest = model_forest(levels[:n])
    want = model_events(forest)
    wanc = model_ancestors(forest)
    wanc = [([-1] + wanc[i], i) for i in range(n)]
    if n < len(levels):
        expect(err is not None, 'events: invalid level %d after %r accepted'
               % (levels[n], levels[:n]))
        expect(aerr is not None, 'ancestors: invalid level accepted')
        expect_equal(anc, wanc, 'ancestors before the invalid level')
        # everything started before the error is what the model starts
        starts = [x for x in got if x[0] == 'S']
        expect_equal(starts, [('S', i) for i in range(n)],
                     'items started before the invalid level')
        stack = []
        for ev, i in got:
            if ev == 'S':
                stack.append(i)
            else:
                expect(stack and stack[-1] == i, 'unbalanced events')
                stack.pop()
        return 'rejected', n
    expect(err is None and aerr is None, 'valid levels refused: %r %r'
           % (err, aerr))
    expect_equal(got, want, 'events')
    expect_equal(anc, wanc, 'ancestors')

    evs = list(prefix_event(iter(pairs), root))
    got = [([a.i for a in s], x.i) for s, x in
           ((list(s), x) for s, x in prefix_ancestors(iter(evs), root))]
    expect_equal(got, wanc, 'ancestors from events')

    # rebuild trees
    def plain(tree):
        item, kids = tree
        return (item.i, [plain(k) for k in kids])

    it = iter(evs)
    trees = []
    for ev, item in it:
        expect(ev is STARTEVENT, 'a tree does not begin with a start event')
        t = build_subtree(it)
        expect(t[0] is item, 'subtree root differs from the started item')
        trees.append(t)
    expect_equal([plain(t) for t in trees], forest, 'rebuilt trees')
    flat = list(tree_events_multi(trees))
    expect(len(flat) == len(evs) and all(
        a[0] is b[0] and a[1] is b[1] for a, b in zip(flat, evs)),
        'flattened trees differ from the events')
    flat = [x for t in trees for x in tree_events(*t)]
    expect(len(flat) == len(evs) and all(
        a[0] is b[0] and a[1] is b[1] for a, b in zip(flat, evs)),
        'tree_events differ from the events')

    # skipping the rest of an item's subtree resumes right behind it
    for k, (ev, item) in enumerate(evs):
        if ev is not STARTEVENT:
            continue
        it = iter(evs[k + 1:])
        sub = list(iter_subevents(it))
        end = max(j for j, (e, x) in enumerate(evs) if x is item)
        expect_equal([(name(e), x.i) for e, x in sub],
                     [(name(e), x.i) for e, x in evs[k + 1:end + 1]],
                     'rest of the subtree of %r' % item)
        rest = [(name(e), x.i) for e, x in it]
        expect_equal(rest, [(name(e), x.i) for e, x in evs[end + 1:]],
                     'events after the subtree of %r' % item)
    return 'ok', want


def cases(tier):
    q = tier == 'quick'
    for seq in rec.level_sequences(9 if q else 11, 10, True, (0,)):
        yield {'levels': seq}
    for seq in rec.level_sequences(6 if q else 7, 3, False, (0, 1, 2)):
        yield {'levels': seq}
    for base in (1, 5, 0x3f0):
        for seq in rec.level_sequences(5, 3, True, (0,)):
            yield {'levels': [base + l for l in seq]}
    # deep chains and long plateaus
    for n in (100, 400):
        yield {'levels': list(range(n)) + [0, 1]}
        yield {'levels': list(range(n)) + list(range(n - 1, -1, -1))}
        yield {'levels': [0] + [1] * n}


def document(case):
    """the same through the parsed records of a document stream"""
    from hwp5.binmodel import ModelStream
    from hwp5.xmlmodel import ModelEventStream
    from hwp5.storage import Open2Stream
    levels = case['levels']
    # records of an unknown tag keep their payload unparsed
    recs = [(500, l, rec.pattern(3, i)) for i, l in enumerate(levels)]
    data = rec.encode(recs)
    open_ = Open2Stream(lambda: io.BytesIO(data))
    s = ModelEventStream(open_, (5, 0, 1, 7))
    n = valid_prefix(levels)
    if n < len(levels):
        ok = True
        try:
            list(s.modelevents())
        except Exception:
            ok = False
        expect(not ok, 'document stream with invalid levels accepted')
        return 'rejected'
    evs = [(name(e), e is STARTEVENT) for e, x in s.modelevents()]
    want = model_events(model_forest(levels))
    expect_equal([e for e, _ in evs], [e for e, _ in want],
                 'document model events')
    models = list(ModelStream(open_, (5, 0, 1, 7)).models())
    expect_equal([m['level'] for m in models], levels, 'model levels')
    expect_equal([m['seqno'] for m in models], list(range(len(levels))),
                 'model numbers')
    return want


def document_cases(tier):
    q = tier == 'quick'
    for seq in rec.level_sequences(7 if q else 8, 8, True, (0,)):
        yield {'levels': seq}
    for seq in rec.level_sequences(4 if q else 5, 3, False, (0,)):
        yield {'levels': seq}


FAMILIES = [Family('trees', cases, run),
            Family('document', document_cases, document)]
