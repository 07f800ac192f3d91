"""C04: the CoNLL-U reader never builds a malformed tree (all HEAD vectors within the bounds)."""
import io
import itertools

from mc.core import Fail, require, raises
from mc.trees import check_tree, is_acyclic, long_trees

TITLE = ('All HEAD vectors over {_, -1, 0..n+1}^n, each with all reader options, single and as second sentence; '
         'all combinations of lines with too few columns')
ASSUMPTIONS = ['the ID column is 1..n']
OPTIONS = ({}, {'fix_cycles': True}, {'strict': True}, {'strict': True, 'fix_cycles': True},
           {'empty_parent': 'ignore'})

GARBAGE = ('', 'x', '__', '-', '1.1', '1-2', '1:dep', 'ROOT', '1,2', '_1')


def BOUNDS(tier):
    return {'long_sentences_words': 12, 'max_words': 5 if tier == 'quick' else 6, 'reader_options': [str(o) for o in OPTIONS],
            'cycle_fixing_max_words': 6 if tier == 'quick' else 7}


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'n': n, 'first': list(first)} for n in range(1, bounds['max_words'] + 1)
              for first in itertools.product(alphabet(n), repeat=min(2, n))]
    m = bounds['cycle_fixing_max_words']
    # Functional graphs of the biggest size: only in-range heads, cycle fixing on and off.
    result += [{'n': m, 'first': [a, b], 'inrange': True} for a in range(m + 1) for b in range(m + 1)]
    result += [{'long': list(heads), 'pairs': i % 3 == 1} for i, heads in enumerate(long_trees())]
    result += [{'columns': k} for k in range(1, 11)] + [{'garbage': n} for n in (1, 2, 3)]
    return result[::-1]


def alphabet(n):
    return ['_', -1, *range(n + 2)]


def run_shard(shard, rec):
    if 'columns' in shard:
        for other, third in itertools.product(range(1, 11), repeat=2):
            for kind in ('word', 'mwt', 'empty'):
                for i in range(len(OPTIONS)):
                    rec.run({'columns': [shard['columns'], other, third], 'kind': kind, 'option': i})
        return
    if 'long' in shard:
        run_long(shard, rec)
        return
    if 'garbage' in shard:
        # HEAD values which are no numbers at all
        n = shard['garbage']
        for heads in itertools.product(range(n + 1), repeat=n):
            for at, value in itertools.product(range(n), GARBAGE):
                for i in range(len(OPTIONS)):
                    rec.run({'heads': list(heads[:at]) + [value] + list(heads[at + 1:]), 'option': i})
        return
    n, first = shard['n'], shard['first']
    values = list(range(n + 1)) if shard.get('inrange') else alphabet(n)
    for rest in itertools.product(values, repeat=n - len(first)):
        heads = first + list(rest)
        for i in range(2 if shard.get('inrange') else len(OPTIONS)):
            rec.run({'heads': heads, 'option': i})


def run_long(shard, rec):
    """All single changes (and pairs of changes) of the heads of a long sentence."""
    heads = shard['long']
    n = len(heads)
    for i in range(n):
        for value in alphabet(n):
            one = heads[:i] + [value] + heads[i + 1:]
            for k in range(len(OPTIONS)):
                rec.run({'heads': one, 'option': k})
            for j in range(i + 1, n if shard['pairs'] else 0):
                for other in range(n + 1):
                    rec.run({'heads': one[:j] + [other] + one[j + 1:], 'option': 1})


def conllu(heads):
    return ''.join(f'{i}\tw{i}\t_\t_\t_\t_\t{h}\tdep\t_\t_\n' for i, h in enumerate(heads, 1)) + '\n'


def read(text, options):
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    doc = Document()
    Conllu(filehandle=io.StringIO(text), **options).apply_on_document(doc)
    return doc


def cycles(heads):
    """The set of cycles (as frozensets of node numbers) of the head function."""
    found = set()
    for start in range(1, len(heads) + 1):
        path, node = [], start
        while node and node not in path:
            path.append(node)
            node = heads[node - 1]
        if node:
            found.add(frozenset(path[path.index(node):]))
    return found


def run_columns(case, rec):
    """Lines with less than 10 columns: an error with strict=1, otherwise as if the missing columns were '_'."""
    options = OPTIONS[case['option']]
    full = [['1', 'w1', 'l1', 'A', 'a', 'F=1', '2', 'd1', '2:d1', 'M=1'], ['2', 'w2', 'l2', 'B', 'b', 'F=2', '0', 'd2', '0:d2', 'M=2'],
            ['3', 'w3', 'l3', 'C', 'c', 'F=3', '2', 'd3', '1:d3', 'M=3']]
    if case['kind'] == 'mwt':
        full[0] = ['2-3', 'w23', '_', '_', '_', '_', '_', '_', '_', 'M=1']
        full[1][0], full[2][0], full[2][6] = '2', '3', '0'
        full[1][6] = '3'
    elif case['kind'] == 'empty':
        full[0] = ['0.1', 'w01', 'l1', 'A', 'a', 'F=1', '_', '_', '2:d1', 'M=1']
        full[1][0], full[1][6], full[2][0], full[2][6] = '1', '0', '2', '1'
    before = ['1', 'w', '_', '_', '_', '_', '0', '_', '_', '_']
    if case['kind'] == 'mwt':
        rows = [before] + [row[:k] for row, k in zip(full, case['columns'])]
        complete = [before] + [row[:k] + ['_'] * (10 - k) for row, k in zip(full, case['columns'])]
    else:
        rows = [row[:k] for row, k in zip(full, case['columns'])]
        complete = [row[:k] + ['_'] * (10 - k) for row, k in zip(full, case['columns'])]
    text = '# sent_id = 1\n# text = t\n' + ''.join('\t'.join(row) + '\n' for row in rows) + '\n'
    docs = []
    exc = raises(lambda: docs.append(read(text, options)))
    rec.step()
    rec.trace()
    rec.state((text, case['option']))
    short = any(k < 10 for k in case['columns'])
    if short and options.get('strict'):
        require(exc is not None, 'malformed-input-accepted', text)
        rec.count('rejected')
        return
    if exc is not None:
        raise Fail('short-lines-rejected', f'{text!r}: {type(exc).__name__} {exc}')
    tree = next(docs[0].trees)
    check_tree(tree, where=text)
    for row in complete:
        if '-' not in row[0] and '.' not in row[0] and row[6] == '_':
            row[6] = '0'  # words without HEAD are attached to the root
    want = '# sent_id = 1\n# text = t\n' + ''.join('\t'.join(row) + '\n' for row in complete) + '\n'
    got = docs[0].to_conllu_string()
    require(got == want, 'missing-columns-not-underscores', lambda: f'got {got!r} want {want!r}')
    rec.count('accepted')


def run_case(case, rec):
    if 'columns' in case:
        return run_columns(case, rec)
    heads, options = case['heads'], OPTIONS[case['option']]
    n = len(heads)
    text = '1\tpre\t_\t_\t_\t_\t0\troot\t_\t_\n\n' + conllu(heads)
    docs = []
    exc = raises(lambda: docs.append(read(text, options)))
    rec.step()
    rec.trace()
    rec.state((tuple(heads), case['option']))
    where = f'heads={heads} options={options}'
    in_range = all(h == '_' or isinstance(h, int) and 0 <= h <= n for h in heads)
    missing = '_' in heads
    numeric = [0 if h == '_' else h for h in heads]
    loops = cycles(numeric) if in_range else set()
    if not in_range or (missing and options.get('strict')) or (loops and not options.get('fix_cycles')):
        require(exc is not None, 'malformed-input-accepted', where)
        rec.count('rejected')
        return
    if exc is not None:
        raise Fail('valid-input-rejected', f'{where}: {type(exc).__name__} {exc}')
    trees = list(docs[0].trees)
    require(len(trees) == 2, 'wrong-number-of-trees', where)
    check_tree(trees[0], where=where)
    root = trees[1]
    check_tree(root, where=where)
    words = root.descendants
    require([w.form for w in words] == [f'w{i}' for i in range(1, n + 1)], 'wrong-words', where)
    got = [w.parent.ord for w in words]
    changed = [i + 1 for i in range(n) if got[i] != numeric[i]]
    require(all(got[i - 1] == 0 for i in changed), 'reattached-elsewhere-than-to-root', f'{where} got {got}')
    require(len(changed) == len(loops), 'wrong-number-of-reattached-words', f'{where} got {got}')
    require(all(len(loop & set(changed)) == 1 for loop in loops), 'cycle-not-broken-once', f'{where} got {got}')
    rec.count('cycles fixed' if loops else 'accepted')
