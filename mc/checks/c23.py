"""C23: blocks for querying, filtering and normalizing treebanks: util.Filter, Mark, See, Wc, Normalize, Eval, FindBug, MarkMwtBugsAtNodes."""
import contextlib
import io
import itertools
import os
import sys

from mc.core import require, equal, scratch, raises
from mc import trees, conllu

TITLE = ('All trees up to the bound x all subsets of matching words x all parameters of util.Filter, Mark and See vs. set-based oracles; '
         'all small documents: util.Wc, Normalize, Eval, FindBug and MarkMwtBugsAtNodes vs. oracles')
ASSUMPTIONS = ['util.Filter: the condition depends on the attributes of the node and its ancestors only; a matching node inside of another kept subtree may be kept at its place or attached to the root',
               'util.See: n is at least 1; the order of equally frequent values is arbitrary']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'filter_words': 5 if big else 4, 'see_words': 4 if big else 3, 'documents_trees': 4 if big else 3, 'eval_words': 3}


FILTERS = ('delete_tree', 'delete_tree_if_node', 'delete_subtree', 'keep_tree', 'keep_tree_if_node', 'keep_subtree', 'keep_node')


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(0, bounds['filter_words'] + 1):
        count = len(trees.head_vectors(n)) if n else 1
        result += [{'kind': 'filter', 'n': n, 'from': i, 'to': i + 25} for i in range(0, count, 25)]
    result += [{'kind': 'pairs', 'part': k} for k in range(4)]
    result += [{'kind': 'zones'}]
    for n in range(0, bounds['see_words'] + 1):
        count = len(trees.head_vectors(n)) if n else 1
        result += [{'kind': 'see', 'n': n, 'from': i, 'to': i + 5} for i in range(0, count, 5)]
    result += [{'kind': 'seelong', 'part': k} for k in range(4)]
    result += [{'kind': 'wc', 'n': n} for n in range(0, bounds['documents_trees'] + 1)]
    result += [{'kind': 'normattrs'}, {'kind': 'normids'}] + [{'kind': 'normempty', 'part': k} for k in range(4)]
    result += [{'kind': 'eval'}, {'kind': 'evalremove'}, {'kind': 'findbug'}, {'kind': 'mwtbugs'}]
    return result[::-1]


def vectors(n):
    return trees.head_vectors(n) if n else [()]


def subsets(n):
    return itertools.product((0, 1), repeat=n)


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'filter':
        n = shard['n']
        for heads in vectors(n)[shard['from']:shard['to']]:
            for match in subsets(n):
                for what in FILTERS:
                    if n < 5 or what in ('delete_subtree', 'keep_subtree', 'keep_node'):
                        rec.run({'kind': kind, 'heads': heads, 'match': match, 'what': what})
                        if what not in ('delete_tree', 'keep_tree'):
                            rec.run({'kind': kind, 'heads': heads, 'match': match, 'what': what, 'by': 'parent'})
                if n < 5:
                    for mode in range(8):
                        rec.run({'kind': 'mark', 'heads': heads, 'match': match, 'mode': mode})
    elif kind == 'pairs':
        # several parameters: they are applied in the documented order
        heads = (2, 0, 2, 3)
        chosen = [(1, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 1), (0, 0, 0, 0), (1, 1, 1, 1), (0, 0, 0, 1)]
        for number, (one, two) in enumerate(itertools.product(FILTERS, repeat=2)):
            if number % 4 == shard['part'] and one != two:
                for first in chosen:
                    for second in chosen:
                        rec.run({'kind': kind, 'heads': heads, 'what': [one, two], 'match': [first, second]})
    elif kind == 'zones':
        for what in FILTERS + ('mark',):
            for zones in ('all', 'en', 'cs', '', 'en,cs', 'de'):
                for matches in itertools.product((0, 1), repeat=4):
                    rec.run({'kind': kind, 'what': what, 'zones': zones, 'matches': matches})
    elif kind == 'see':
        n = shard['n']
        for heads in vectors(n)[shard['from']:shard['to']]:
            for match in subsets(n):
                for values in itertools.product(range(3), repeat=n):
                    rec.run({'kind': kind, 'heads': heads, 'match': match, 'values': values, 'limit': 1 + sum(values) % 3})
    elif kind == 'seelong':
        for number, counts in enumerate(itertools.product(range(4), repeat=4)):
            if number % 4 == shard['part']:
                for limit in (1, 2, 3, 5):
                    rec.run({'kind': kind, 'counts': counts, 'limit': limit})
    elif kind == 'wc':
        n = shard['n']
        for layout in itertools.product(range(len(SENTENCES)), repeat=n):
            for news in itertools.product(range(4), repeat=n):
                rec.run({'kind': kind, 'layout': layout, 'news': news})
    elif kind == 'normattrs':
        for items in itertools.permutations(('Gender=Fem', 'abbr=Yes', 'Case=Nom', 'Case[psor]=Gen')):
            for k in range(0, 5):
                for feats, misc in itertools.product((0, 1), repeat=2):
                    for plain in (0, 1):
                        rec.run({'kind': kind, 'items': items[:k], 'feats': feats, 'misc': misc, 'plain': plain})
    elif kind == 'normids':
        for options in itertools.product((0, 1), (1, 5), ('', 'p-'), (0, 1), (0, 1), (0, 1)):
            for news in itertools.product((None, True, 'q'), repeat=3):
                rec.run({'kind': kind, 'options': options, 'news': news})
    elif kind == 'normempty':
        minors = [m for k in range(3) for m in itertools.combinations((1, 2, 3, 11), k)]
        for number, layout in enumerate(itertools.product(minors, repeat=3)):
            if number % 4 == shard['part']:
                for raw in (0, 1):
                    rec.run({'kind': kind, 'layout': layout, 'raw': raw})
    elif kind == 'eval':
        for options in subsets(len(EVAL)):
            rec.run({'kind': kind, 'options': options, 'zones': 'all'})
            if sum(options) < 4:
                for zones in ('en', 'cs', ''):
                    rec.run({'kind': kind, 'options': options, 'zones': zones})
        for options in range(6):
            rec.run({'kind': 'evalcount', 'option': options})
    elif kind == 'evalremove':
        for what in ('mwt', 'node', 'empty', 'tree', 'bundle', 'mention', 'mentiononly', 'entityonly'):
            for match in subsets(4):
                rec.run({'kind': kind, 'what': what, 'match': match})
    elif kind == 'findbug':
        for bugs in subsets(4):
            for first in (0, 1):
                for value in (1, 2):
                    rec.run({'kind': kind, 'bugs': bugs, 'first': first, 'value': value})
    elif kind == 'mwtbugs':
        for ranges in ([], [[1, 2]], [[2, 3]], [[1, 2], [3, 4]], [[1, 4]], [[2, 4]]):
            for bugs in itertools.product(('', 'X', 'X+Y', 'Z'), repeat=len(ranges)):
                for old in itertools.product(('', 'X', 'Y+X', 'W'), repeat=3):
                    rec.run({'kind': kind, 'ranges': ranges, 'bugs': bugs, 'old': old})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


def run(create, docs):
    """Execute the block on the documents, return the captured standard output."""
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        # writers remember sys.stdout when they are created
        block = create()
        block.process_start()
        for doc in docs:
            block.apply_on_document(doc)
        block.process_end()
    return handle.getvalue()


def picture(root):
    """The surviving words with their (surviving) parents, in the word order."""
    nodes = root.descendants
    trees.check_tree(root)
    return [(n.form, '' if n.parent is root else n.parent.form) for n in nodes]


# ---------------------------------------------------------------- the oracle of util.Filter
def chain(heads, i):
    """The word i and all its ancestors."""
    result = []
    while i:
        result.append(i)
        i = heads[i - 1]
    return result


def expected(heads, match, what):
    """None if the tree is deleted, otherwise [(word, set of possible parents)]."""
    n = len(heads)
    words = range(1, n + 1)
    if what == 'delete_tree':
        return None if any(match) else [(i, {heads[i - 1]}) for i in words]
    if what == 'keep_tree':
        return [(i, {heads[i - 1]}) for i in words] if any(match) else None
    if what == 'delete_tree_if_node':
        return None if any(match) else [(i, {heads[i - 1]}) for i in words]
    if what == 'keep_tree_if_node':
        return [(i, {heads[i - 1]}) for i in words] if any(match) else None
    if what == 'delete_subtree':
        return [(i, {heads[i - 1]}) for i in words if not any(match[a - 1] for a in chain(heads, i))]
    if what == 'keep_subtree':
        if not any(match):
            return None
        result = []
        for i in words:
            if any(match[a - 1] for a in chain(heads, i)):
                parents = {heads[i - 1]}
                if match[i - 1]:
                    above = any(match[a - 1] for a in chain(heads, i)[1:])
                    parents = {0, heads[i - 1]} if above else {0}
                result.append((i, parents))
        return result
    # keep_node
    if not any(match):
        return None
    result = []
    for i in words:
        if match[i - 1]:
            rest = [a for a in chain(heads, i)[1:] if match[a - 1]]
            result.append((i, {rest[0] if rest else 0}))
    return result


def compare(root, alive, want, case):
    if want is None:
        require(not alive, 'filter-tree-kept', str(case))
        return
    require(alive, 'filter-tree-deleted', str(case))
    got = picture(root)
    equal([form for form, _ in got], [trees.LABELS[i - 1] for i, _ in want], 'filter-words', str(case))
    for (form, parent), (_, parents) in zip(got, want):
        require(parent in {trees.LABELS[p - 1] if p else '' for p in parents}, 'filter-parent', f'{case}: {form} is attached to {parent!r}')


def condition(match, what):
    forms = ''.join(trees.LABELS[i] for i, m in enumerate(match) if m)
    if what in ('delete_tree', 'keep_tree'):
        return f'any(n.form in {forms!r} for n in tree.descendants) and root is tree'
    return f'node.form in {forms!r}'


def case_filter(case, rec):
    from udapi.block.util.filter import Filter
    heads, match, what = case['heads'], case['match'], case['what']
    nodes = trees.build(heads, in_doc=True)
    root, doc = nodes[0], nodes[0].document
    text = condition(match, what)
    if case.get('by') == 'parent':
        text = text.replace('node.', 'node.parent.')
        match = [bool(h and match[h - 1]) for h in heads]
    other = doc.create_bundle().create_tree()
    run(lambda: Filter(**{what: text}), [doc])
    rec.step()
    alive = root in root.bundle.trees
    want = expected(heads, match, what)
    compare(root, alive, want, case)
    equal(len(doc.bundles), 2, 'filter-bundles', str(case))
    equal(other in other.bundle.trees, what.startswith('delete'), 'filter-empty-tree', str(case))


def case_pairs(case, rec):
    from udapi.block.util.filter import Filter
    heads, what, match = case['heads'], case['what'], case['match']
    both = Filter(**{w: condition(m, w) for w, m in zip(what, match)})
    nodes = trees.build(heads, in_doc=True)
    both.process_tree(nodes[0])
    rec.step()
    if 'keep_tree_if_node' in what and FILTERS.index('keep_tree_if_node') < max(FILTERS.index(w) for w in what):
        # the tree is either deleted or kept; whether the later conditions apply is not specified
        index = what.index('keep_tree_if_node')
        if not any(match[index]):
            require(nodes[0] not in nodes[0].bundle.trees, 'filter-tree-kept', str(case))
        return
    again = trees.build(heads, in_doc=True)
    for w, m in sorted(zip(what, match), key=lambda pair: FILTERS.index(pair[0])):
        if again[0] in again[0].bundle.trees:
            Filter(**{w: condition(m, w)}).process_tree(again[0])
    alive = again[0] in again[0].bundle.trees
    equal(nodes[0] in nodes[0].bundle.trees, alive, 'filter-order', str(case))
    if alive:
        equal(picture(nodes[0]), picture(again[0]), 'filter-order', str(case))


def case_zones(case, rec):
    from udapi.block.util.filter import Filter
    from udapi.block.util.mark import Mark
    from udapi.core.document import Document
    doc = Document()
    layout = [('en', 'cs'), ('cs',), ('',)]
    roots, matches = [], list(case['matches'])
    for zones in layout:
        bundle = doc.create_bundle()
        for zone in zones:
            roots.append(trees.build_into(bundle.create_tree(zone), (2, 0, 2), 'a' + 'xb'[matches[len(roots)]] + 'c')[0])
    before = [(root, root.bundle, [n.form for n in root.descendants]) for root in roots]
    node_expr = 'node.form == "b"'
    tree_expr = 'any(node.form == "b" for node in tree.descendants)'
    what = case['what']
    if what == 'mark':
        run(lambda: Mark(node=node_expr, zones=case['zones']), [doc])
    else:
        run(lambda: Filter(**{what: tree_expr if what in ('delete_tree', 'keep_tree') else node_expr}, zones=case['zones']), [doc])
    rec.step()
    for (root, bundle, forms), match in zip(before, matches):
        selected = case['zones'] == 'all' or root.zone in case['zones'].split(',')
        heads, words = (2, 0, 2), (0, match, 0)
        if what == 'mark':
            want = forms
            equal([n.misc['Mark'] for n in root.descendants], ['', '1' if match and selected else '', ''] if not (match and selected) else ['', 1, ''], 'zones-mark', str(case))
        elif selected:
            result = expected(heads, words, what)
            want = None if result is None else [forms[i - 1] for i, _ in result]
        else:
            want = forms
        equal(root in bundle.trees, want is not None, 'zones-tree', f'{case} zone {root.zone!r}')
        if want is not None:
            equal([n.form for n in root.descendants], want, 'zones-words', f'{case} zone {root.zone!r}')
    equal(len(doc.bundles), 3, 'zones-bundles', str(case))


def case_mark(case, rec):
    from udapi.block.util.filter import Filter
    from udapi.block.util.mark import Mark
    heads, match, mode = case['heads'], case['match'], case['mode']
    nodes = trees.build(heads, in_doc=True)
    root, doc = nodes[0], nodes[0].document
    text = condition(match, '')
    empty = root.create_empty_child(form='a')
    empty.ord = 0.1
    for i, node in enumerate(nodes[1:]):
        if i % 2:
            node.misc = 'Bug=b|Mark=old|SpaceAfter=No|ToDo=t'
    old = [dict(n.misc) for n in nodes[1:]]
    if mode == 7:
        out = run(lambda: Filter(keep_tree_if_node=text, mark='m1'), [doc])
        equal([tree is root for tree in doc.trees], [True] if any(match) else [], 'mark-kept-tree', str(case))
        options = {'attr': 'Mark', 'value': 'm1', 'add': True}
    else:
        options = {'attr': 'Mark', 'value': 1, 'add': True}
        params = {}
        if mode & 1:
            params['add'] = options['add'] = False
        if mode & 2:
            params['mark_attr'], params['mark'] = options['attr'], options['value'] = 'M', 'v'
        if mode & 4:
            params['empty'] = True
            params['print_stats'] = True
        out = run(lambda: Mark(node=text, **params), [doc])
    rec.step()
    equal(picture(root), [(trees.LABELS[i], trees.LABELS[h - 1] if h else '') for i, h in enumerate(heads)], 'mark-tree', str(case))
    for i, node in enumerate(nodes[1:]):
        want = dict(old[i])
        if match[i]:
            want[options['attr']] = options['value']
        elif not options['add']:
            for name in (options['attr'], 'ToDo', 'Bug'):
                want.pop(name, None)
        got = dict(node.misc)
        if match[i] and not options['add']:
            # deleting old marks of the matching nodes is not specified
            equal(got.get(options['attr']), options['value'], 'mark-value', str(case))
            equal(got.get('SpaceAfter'), want.get('SpaceAfter'), 'mark-misc', str(case))
        else:
            equal(got, want, 'mark-misc', f'{case} word {i + 1}')
    hit = mode == 4 + (mode & 3) and mode != 7 and bool(match and match[0])
    equal(empty.misc[options['attr']], options['value'] if hit else '', 'mark-empty', str(case))
    if mode in (4, 5, 6):
        equal(out, f'util.Mark marked {sum(match) + hit} nodes\n', 'mark-stats', str(case))


# ---------------------------------------------------------------- util.See
STATS = ('dir', 'edge', 'depth', 'children', 'siblings', 'p_lemma', 'c_lemma', 'l_form', 'r_form', 'lemma', 'feats_split', 'feats[X]', 'p_p_lemma')
VALUES = ((None, '_'), ('u', 'X=1'), ('v', 'X=1|Y=2'))


def statistics(heads, values, i, stat):
    """The values of the statistic for the i-th word, from the definitions in get_attrs."""
    n = len(heads)
    head = heads[i - 1]
    lemma = lambda j: '<ROOT>' if j == 0 else VALUES[values[j - 1]][0]
    sons = [j for j in range(1, n + 1) if heads[j - 1] == i]
    if stat == 'dir':
        return ['root' if not head else 'left' if i < head else 'right']
    if stat == 'edge':
        return [str(i - head) if head else '0']
    if stat == 'depth':
        return [str(len(chain(heads, i)))]
    if stat == 'children':
        return [str(len(sons))]
    if stat == 'siblings':
        return [str(sum(1 for h in heads if h == head) - 1)]
    if stat == 'lemma':
        return [lemma(i) or '']
    if stat == 'p_lemma':
        return [lemma(head) or '']
    if stat == 'c_lemma':
        return [lemma(j) or '' for j in sons]
    if stat == 'l_form':
        return ['<ROOT>' if i == 1 else trees.LABELS[i - 2]]
    if stat == 'r_form':
        return [trees.LABELS[i]] if i < n else []
    feats = VALUES[values[i - 1]][1]
    if stat == 'feats_split':
        return feats.split('|')
    return ['1' if 'X=1' in feats else '']


def report(per_stat, title, numbers, limit, got, context):
    """Compare the output of util.See with the counters."""
    lines = got.split('\n')
    equal(lines[0], title, 'see-title', context)
    matching, total, tree_matching, tree_total = numbers
    equal(lines[1], f'matches {matching} out of {total} nodes ({matching * 100 / (total or 1):.1f}%) in {tree_matching} out of {tree_total} trees ({tree_matching * 100 / (tree_total or 1):.1f}%)', 'see-summary', context)
    rest = lines[2:-1]
    for stat, (matched, every) in per_stat.items():
        kinds = len(matched)
        equal(rest[:1], [f'=== {stat} ({kinds} value{"s" if kinds > 1 else ""}) ==='], 'see-header', context)
        rest = rest[1:]
        shown = rest[:min(kinds, limit)]
        rest = rest[len(shown):]
        counts = []
        for line in shown:
            value, count, percent, delta = line[:15].strip(), line[16:21], line[22:26], line[27:]
            require(value in matched, 'see-value', f'{context}: {line!r}')
            equal(int(count), matched[value], 'see-count', f'{context} {stat} {value}')
            counts.append(matched[value])
            part, whole = 100 * matched[value] / sum(matched.values()), 100 * every[value] / sum(every.values())
            equal(percent, f'{int(part):3d}%', 'see-percent', f'{context} {stat} {value}')
            equal(delta, f'delta={int(part - whole):+3d}%', 'see-delta', f'{context} {stat} {value}')
        equal(len({line[:15] for line in shown}), min(kinds, limit), 'see-limit', context)
        equal(counts, sorted(matched.values(), reverse=True)[:limit], 'see-top', context)
    equal(rest, [], 'see-extra', context)


def counters(pairs):
    """(matched, every) from pairs (matching?, list of values)."""
    matched, every = {}, {}
    for hit, values in pairs:
        for value in values:
            every[value] = every.get(value, 0) + 1
            if hit:
                matched[value] = matched.get(value, 0) + 1
    return matched, every


def case_see(case, rec):
    from udapi.block.util.see import See
    heads, match, values = case['heads'], case['match'], case['values']
    nodes = trees.build(heads, in_doc=True)
    doc = nodes[0].document
    for node, value in zip(nodes[1:], values):
        node.lemma, node.feats = VALUES[value]
    doc.create_bundle().create_tree()
    stats = [s for s in STATS if s != 'p_p_lemma']
    text = condition(match, '')
    got = run(lambda: See(node=text, n=case['limit'], stats=','.join(stats)), [doc])
    rec.step()
    per_stat = {s: counters([(match[i - 1], statistics(heads, values, i, s)) for i in range(1, len(heads) + 1)]) for s in stats}
    report(per_stat, text, (sum(match), len(match), int(any(match)), 2), case['limit'], got, str(case))


def case_seelong(case, rec):
    """Several documents, repeated values, empty nodes."""
    from udapi.block.util.see import See
    from udapi.core.document import Document
    counts = case['counts']
    docs, pairs, numbers, with_empty = [], [], [0, 0, 0, 0], []
    for d in range(2):
        doc = Document()
        for t in range(2):
            root = doc.create_bundle().create_tree()
            hit_tree = False
            for k, count in enumerate(counts):
                for _ in range((count + k * d + t) % 4):
                    hit = k % 2 == t
                    node = root.create_child(form='ABCD'[k], lemma='ab'[k // 2], upos='NV'[hit])
                    pairs.append((hit, [node.lemma]))
                    hit_tree |= hit
                    numbers[0] += hit
                    numbers[1] += 1
            if d and t:
                root.create_empty_child(form='E', lemma='e', upos='V').ord = 0.1
                with_empty.append((True, ['e']))
            numbers[2] += hit_tree
            numbers[3] += 1
        docs.append(doc)
    text = 'node.upos == "V"'
    got = run(lambda: See(node=text, n=case['limit'], stats='lemma'), docs)
    report({'lemma': counters(pairs)}, text, numbers, case['limit'], got, str(case))
    numbers[0] += 1
    numbers[1] += 1
    numbers[2] = sum(any(n.upos == 'V' for n in b.trees[0].descendants_and_empty) for doc in docs for b in doc.bundles)
    got = run(lambda: See(node=text, n=case['limit'], stats='lemma', empty=True), docs)
    report({'lemma': counters(pairs + with_empty)}, text, numbers, case['limit'], got, str(case))
    rec.step(2)


# ---------------------------------------------------------------- util.Wc
# words, multi-word tokens, empty nodes
SENTENCES = ((0, (), 0), (1, (), 1), (3, ((1, 2),), 0), (4, ((1, 2), (3, 4)), 2))


def case_wc(case, rec):
    from udapi.block.util.wc import Wc
    from udapi.core.document import Document
    doc, docs_count, pars = Document(), 0, 0
    doc.create_bundle()      # without trees
    total = {'trees': 0, 'words': 0, 'mwts': 0, 'tokens': 0, 'empty': 0}
    for number, (layout, new) in enumerate(zip(case['layout'], case['news'])):
        words, mwts, empties = SENTENCES[layout]
        root = doc.create_bundle().create_tree()
        nodes = [root.create_child(form='x') for _ in range(words)]
        for start, end in mwts:
            root.create_multiword_token(nodes[start - 1:end], form='m')
        for _ in range(empties):
            root.create_empty_child(form='e')
        if new & 1:
            root.newdoc = True if new & 2 else 'name'
        if new & 2:
            root.newpar = True if new & 1 else 'name'
        docs_count += bool(new & 1) or number == 0
        pars += bool(new & 2)
        total['trees'] += 1
        total['words'] += words
        total['mwts'] += len(mwts)
        total['tokens'] += words - sum(end - start for start, end in mwts)
        total['empty'] += empties
    got = run(lambda: Wc(tsv=True), [doc])
    want = [total['trees'], total['words'], total['tokens'], total['mwts'], total['empty'], docs_count, pars]
    equal(got, '\t'.join(map(str, want)) + '\n', 'wc-tsv', str(case))
    # two documents in a row, human-readable
    got = run(Wc, [doc, doc])
    lines = [(total['trees'], 'trees'), (total['words'], 'words')]
    if total['mwts']:
        lines += [(total['mwts'], 'multi-word tokens'), (total['tokens'], 'tokens')]
    lines += [(value, name) for value, name in ((total['empty'], 'empty nodes'), (docs_count, 'documents'), (pars, 'paragraphs')) if value]
    equal(got, ''.join(f'{2 * value:8d} {name}\n' for value, name in lines), 'wc-text', str(case))
    rec.step(2)


# ---------------------------------------------------------------- util.Normalize
def case_normattrs(case, rec):
    from udapi.block.util.normalize import Normalize
    text = '|'.join(case['items']) or '_'
    misc = text.replace('abbr=Yes', 'flag') if case['plain'] else text
    word = conllu.word('w', feats=text, misc=misc)
    others = [conllu.word('x', feats='A=1', head=1), conllu.word('y', head=1)]
    sent = conllu.sentence([word] + others, [[2, 3, 'wx', misc]], [conllu.empty('1.1', 'e', feats=text, misc=misc)])
    for touch in (0, 1):
        doc = conllu.read_string(conllu.document([sent]))
        root = doc.bundles[0].trees[0]
        if touch:
            str(root.descendants[0].feats), str(root.descendants[0].misc), dict(root.descendants[0].feats), dict(root.multiword_tokens[0].misc)
        run(lambda: Normalize(feats=case['feats'], misc=case['misc']), [doc])
        rec.step()
        ordered = lambda t: '|'.join(sorted(t.split('|'), key=lambda s: s.split('=')[0].lower()))
        want_feats = ordered(text) if case['feats'] else text
        want_misc = ordered(misc) if case['misc'] else misc
        got = conllu.observe(root)
        equal(got['words'], [['w', '_', '_', '_', want_feats, 0, '_', '_', want_misc]] + others, 'normalize-word', str(case))
        equal(got['empties'], [['1.1', 'e', '_', '_', '_', want_feats, '_', want_misc]], 'normalize-empty-node', str(case))
        equal(got['mwts'], [[2, 3, 'wx', want_misc]], 'normalize-mwt', str(case))
        equal(root.sent_id, '1', 'normalize-sent-id', str(case))


def case_normids(case, rec):
    from udapi.block.util.normalize import Normalize
    from udapi.core.document import Document
    sent_id, start, prefix, from_file, reset, newdoc_from_file = case['options']
    docs = []
    for d in range(2):
        doc = Document()
        doc.meta['loaded_from'] = f'/some/dir.x/file{d}.conllu'
        for number, new in enumerate(case['news']):
            bundle = doc.create_bundle()
            bundle.bundle_id = f'old{number}'
            for zone in (('', 'en') if number == 1 else ('en', 'cs')):
                root = bundle.create_tree(zone)
                root.create_child(form='x')
            bundle.trees[number % 2].newdoc = new
        docs.append(doc)
    params = {'sent_id': sent_id, 'start_sent_id': start, 'sent_id_prefix': prefix, 'sent_id_from_filename': from_file,
              'sent_id_reset_at_newdoc': reset, 'newdoc_from_filename': newdoc_from_file}
    if reset and not from_file:
        require(isinstance(raises(Normalize, **params), ValueError), 'normalize-options', str(case))
        return
    run(lambda: Normalize(**params), docs)
    rec.step()
    active = sent_id or start != 1 or prefix or from_file
    number = start
    for d, doc in enumerate(docs):
        for i, (new, bundle) in enumerate(zip(case['news'], doc.bundles)):
            want = f'old{i}'
            if active:
                if reset and new:
                    number = 1
                want = (f'file{d}' if from_file else '') + prefix + str(number)
                number += 1
            equal(bundle.bundle_id, want, 'normalize-bundle-id', str(case))
            equal([t.sent_id for t in bundle.trees], [want + ('/' + t.zone if t.zone else '') for t in bundle.trees], 'normalize-sent-id', str(case))
            equal([t.newdoc for t in bundle.trees], [(f'file{d}' if new and newdoc_from_file else new) if k == i % 2 else None for k in range(2)], 'normalize-newdoc', str(case))


def case_normempty(case, rec):
    from udapi.block.util.normalize import Normalize
    layout = case['layout']
    empties, links = [], []
    for major, minors in enumerate(layout):
        for minor in minors:
            empties.append(f'{major}.{minor}')
    words = [conllu.word('w', head=0, deprel='root'), conllu.word('x', head=1, deprel='dep')]
    rename = {}
    for major, minors in enumerate(layout):
        for new, minor in enumerate(minors, 1):
            rename[f'{major}.{minor}'] = f'{major}.{new}'
    rows = []
    for i, eid in enumerate(empties):
        previous = empties[i - 1] if i else '1'
        rows.append(conllu.empty(eid, form=f'e{i}', deps=f'{previous}:dep' if i else '1:conj', misc=f'N={i}'))
    if empties:
        words[1][7] = '|'.join(f'{e}:x{i}' for i, e in enumerate(sorted(empties, key=conllu.id_key)))
    doc = conllu.read_string(conllu.document([conllu.sentence(words, empties=rows)]))
    root = doc.bundles[0].trees[0]
    if case['raw']:
        [n.deps for n in root.descendants_and_empty]
    run(lambda: Normalize(empty_node_ord=True), [doc])
    rec.step()
    new = lambda deps: '_' if deps == '_' else '|'.join(f"{rename.get(d.split(':')[0], d.split(':')[0])}:{d.split(':')[1]}" for d in deps.split('|'))
    got = conllu.observe(root)
    equal(got['words'], [w[:7] + [new(w[7])] + w[8:] for w in words], 'normalize-empty-links', str(case))
    equal(got['empties'], [[rename[e[0]]] + e[1:6] + [new(e[6])] + e[7:] for e in rows], 'normalize-empty-ords', str(case))
    texts = conllu.serialize(conllu.sentence(got['words'], empties=got['empties']))
    from udapi.block.write.conllu import Conllu
    out = run(Conllu, [doc])
    equal([line for line in out.split('\n') if line and line[0] != '#'], texts, 'normalize-empty-written', str(case))


# ---------------------------------------------------------------- util.Eval
EVAL = ('start', 'before_doc', 'doc', 'before_bundle', 'bundle', 'tree', 'node', 'mwt', 'after_bundle', 'after_doc', 'end', 'empty_nodes')


def eval_document():
    from udapi.core.document import Document
    doc = Document()
    for number, zones in enumerate((('en', 'cs'), (), ('',)), 1):
        bundle = doc.create_bundle()
        for zone in zones:
            root = bundle.create_tree(zone)
            nodes = trees.build_into(root, (2, 0, 2), [f'{number}{zone}{c}' for c in 'abc'])
            root.create_empty_child(form=f'{number}{zone}e').ord = 0.1
            root.create_multiword_token(nodes[1:3], form=f'{number}{zone}m')
    return doc


def case_eval(case, rec):
    from udapi.block.util.eval import Eval
    doc = eval_document()
    on = {name for name, used in zip(EVAL, case['options']) if used}
    code = {
        'start': 'self.log = ["start"]', 'end': 'self.log.append("end"); print("|".join(self.log))',
        'before_doc': 'self.log = getattr(self, "log", []); self.log.append("before_doc %s" % (this is doc is document))',
        'after_doc': 'self.log = getattr(self, "log", []); self.log.append("after_doc %s" % (this is doc is document))',
        'doc': 'self.log = getattr(self, "log", []); self.log.append("doc %s" % (this is doc is document))',
        'before_bundle': 'self.log = getattr(self, "log", []); self.log.append("before %s" % $.bundle_id)',
        'bundle': 'self.log = getattr(self, "log", []); self.log.append("bundle %s %s" % (bundle.bundle_id, this is bundle and doc is document))',
        'after_bundle': 'self.log = getattr(self, "log", []); self.log.append("after %s" % bundle.bundle_id)',
        'tree': 'self.log = getattr(self, "log", []); self.log.append("tree %s %s" % ($.sent_id, this is tree is root and tree in bundle.trees and bundle in doc.bundles))',
        'node': 'self.log = getattr(self, "log", []); self.log.append("node %s %s" % ($.form, this is node and node.root is tree))',
        'mwt': 'self.log = getattr(self, "log", []); self.log.append("mwt %s %s" % ($.form, this is mwt and mwt.root is tree))'}
    params = {name: code[name] for name in on if name in code}
    if 'end' not in on:
        params['end'] = 'print("|".join(getattr(self, "log", [])))'
    else:
        params['end'] = 'self.log = getattr(self, "log", []); ' + code['end']
    got = run(lambda: Eval(zones=case['zones'], empty_nodes='empty_nodes' in on, **params), [doc])
    rec.step()
    log = ['start'] if 'start' in on else []
    add = lambda name, text: log.append(text) if name in on else None
    add('before_doc', 'before_doc True')
    add('doc', 'doc True')
    for bundle in doc.bundles:
        add('before_bundle', f'before {bundle.bundle_id}')
        add('bundle', f'bundle {bundle.bundle_id} True')
        for tree in bundle.trees:
            if case['zones'] in ('all', tree.zone):
                add('tree', f'tree {tree.sent_id} True')
                prefix = bundle.bundle_id + tree.zone
                for form in 'eabc':
                    if form != 'e' or 'empty_nodes' in on:
                        add('node', f'node {prefix}{form} True')
                add('mwt', f'mwt {prefix}m True')
        add('after_bundle', f'after {bundle.bundle_id}')
    add('after_doc', 'after_doc True')
    add('end', 'end')
    equal(got, '|'.join(log) + '\n', 'eval-log', str(case))


def case_evalcount(case, rec):
    from udapi.block.util.eval import Eval
    doc = eval_document()
    option = case['option']
    tests = [
        ({'node': 'count_$.root.zone += 1', 'end': 'print(sorted(self.count.items()))'}, {'en': 3, 'cs': 3, '': 3}),
        ({'node': 'count_$.form[-1] += 1; count_"TOTAL" += 1', 'end': 'print(sorted(self.count.items()))'}, {'a': 3, 'b': 3, 'c': 3, 'TOTAL': 9}),
        ({'tree': 'count_$.zone += len($.descendants)', 'bundle': 'count_"b" += 1', 'end': 'print(sorted(self.count.items()))'}, {'en': 3, 'cs': 3, '': 3, 'b': 3}),
        ({'node': 'self.count["$."] += 1', 'end': 'print(sorted(self.count.items()))', 'expand_code': False}, {'$.': 9}),
        ({'doc': 'count_"d" += len($.bundles)', 'end': 'print(sorted(self.count.items()))'}, {'d': 3}),
        ({'mwt': 'count_len($.words) += 1', 'node': 'count_$.parent.is_root() += 1', 'end': 'print(sorted(self.count.items()))'}, {2: 3, True: 3, False: 6}),
    ]
    params, want = tests[option]
    got = run(lambda: Eval(**params), [doc])
    rec.step()
    equal(got, f'{sorted(want.items())}\n', 'eval-count', str(case))


def case_evalremove(case, rec):
    """The code may delete the items it is called on: no item is skipped."""
    from udapi.block.util.eval import Eval
    from udapi.core.document import Document
    what, match = case['what'], case['match']
    names = [trees.LABELS[i] for i in range(4)]
    doomed = ''.join(name for name, m in zip(names, match) if m)
    doc = Document()
    bundle = doc.create_bundle()
    root = bundle.create_tree()
    text = f'self.count[$.form] += 1\nif $.form in {doomed!r}: $.remove()'
    rest = lambda: None
    if what == 'mwt':
        words = [root.create_child(form='x') for _ in range(8)]
        for i, name in enumerate(names):
            root.create_multiword_token(words[2 * i:2 * i + 2], form=name)
        params, rest = {'mwt': text}, lambda: [m.form for m in root.multiword_tokens]
    elif what == 'node':
        trees.build_into(root, (0,) * 4)
        params, rest = {'node': text}, lambda: [n.form for n in root.descendants]
    elif what == 'empty':
        root.create_child(form='x')
        for i, name in enumerate(names, 1):
            root.create_empty_child(form=name).ord = 1 + i / 10
        params, rest = {'node': text, 'empty_nodes': True}, lambda: [n.form for n in root.empty_nodes]
    elif what == 'tree':
        root.remove()
        for name in names:
            bundle.create_tree(name)
        params, rest = {'tree': text.replace('$.form', '$.zone')}, lambda: [t.zone for t in bundle.trees]
    elif what == 'bundle':
        bundle.remove()
        for name in names:
            doc.create_bundle().bundle_id = name
        params, rest = {'bundle': text.replace('$.form', '$.bundle_id')}, lambda: [b.bundle_id for b in doc.bundles]
    else:
        entity = doc.create_coref_entity(eid='e1')
        for name in names:
            node = root.create_child(form=name)
            entity.create_mention(words=[node], head=node)
        params, rest = {'coref_mention': text.replace('$.form', '$.head.form'), 'coref_entity': 'self.count[$.eid] += 1'}, \
            lambda: [m.head.form for e in doc.coref_entities for m in e.mentions]
        if what == 'mentiononly':
            del params['coref_entity']
        elif what == 'entityonly':
            params = {'coref_entity': 'self.count[$.eid] += 1'}
            rest = lambda: [name for name, m in zip(names, match) if not m]
    blocks = []

    def create():
        blocks.append(Eval(**params))
        return blocks[0]
    run(create, [doc])
    rec.step()
    want = {name: 1 for name in names}
    if what == 'node':
        pass
    elif what == 'empty':
        want['x'] = 1
    elif what == 'mention':
        want['e1'] = 1
    elif what == 'entityonly':
        want = {'e1': 1}
    equal(dict(blocks[0].count), want, 'eval-visited', str(case))
    equal(rest(), [name for name, m in zip(names, match) if not m], 'eval-removed', str(case))


# ---------------------------------------------------------------- util.FindBug
def case_findbug(case, rec):
    from udapi.block.util.findbug import FindBug
    from udapi.core.document import Document
    doc = Document()
    for number, bug in enumerate(case['bugs'], 1):
        bundle = doc.create_bundle()
        for zone in (('',) if number < 3 else ('en', 'cs')):
            root = bundle.create_tree(zone)
            trees.build_into(root, (2, 0), [f'w{number}', zone or 'x'])
        if bug:
            bundle.trees[-1].descendants[0].form = 'BUG'
    before = run_conllu(doc)
    code = '$.form = $.form + "!"; 1 // ($.form != "BUG!")'
    if case['value'] == 2:
        code = '$.misc["A"] = 1; 1 // ($.form != "BUG")'
    exc = None
    with scratch() as path:
        name = os.path.join(str(path), 'out.conllu')
        handle = io.StringIO()
        with contextlib.redirect_stdout(handle):
            block = FindBug(block='util.Eval', first_error_only=bool(case['first']), files=name if case['value'] == 2 else '-', node=code)
            try:
                block.apply_on_document(doc)
            except ZeroDivisionError as error:
                exc = error
            finally:
                block.process_end()
                sys.stdout.flush()
        rec.step()
        text = open(name).read() if case['value'] == 2 else handle.getvalue()
    equal(exc is not None, bool(case['first'] and any(case['bugs'])), 'findbug-exception', str(case))
    equal(run_conllu(doc), before, 'findbug-document-changed', str(case))
    wanted = [b for b, bug in zip(doc.bundles, case['bugs']) if bug]
    if case['first']:
        wanted = wanted[:1]
    equal(text, ''.join(run_conllu_tree(tree) for b in wanted for tree in b.trees), 'findbug-output', str(case))


def run_conllu(doc):
    from udapi.block.write.conllu import Conllu
    return run(Conllu, [doc])


def run_conllu_tree(tree):
    from udapi.block.write.conllu import Conllu
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        Conllu().process_tree(tree)
    return handle.getvalue()


def case_mwtbugs(case, rec):
    from udapi.block.util.markmwtbugsatnodes import MarkMwtBugsAtNodes
    nodes = trees.build((2, 0, 2, 3), in_doc=True)
    root = nodes[0]
    for node, old in zip(nodes[1:], case['old']):
        node.misc['Bug'] = old
    want = [n.misc['Bug'] for n in nodes[1:]]
    for (start, end), bug in zip(case['ranges'], case['bugs']):
        mwt = root.create_multiword_token(nodes[start:end + 1], form='m')
        mwt.misc['Bug'] = bug
        for i in range(start - 1, end):
            have = want[i].split('+') if want[i] else []
            want[i] = (have, bug.split('+') if bug else [])
    run(MarkMwtBugsAtNodes, [root.document])
    rec.step()
    for node, expect in zip(nodes[1:], want):
        got = node.misc['Bug'].split('+') if node.misc['Bug'] else []
        old, new = expect if isinstance(expect, tuple) else (expect.split('+') if expect else [], [])
        equal(set(got), set(old) | set(new), 'mwt-bugs', str(case))
        equal(got[:len(old)], old, 'mwt-bugs-old', str(case))
    for mwt, bug in zip(root.multiword_tokens, case['bugs']):
        equal(mwt.misc['Bug'], bug, 'mwt-bugs-mwt', str(case))
