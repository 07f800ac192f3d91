"""C24: ud.FixPunct makes punctuation projective, childless and inside of its paired marks; it keeps the dependencies among words."""
import itertools

from mc.core import require, equal
from mc import trees

TITLE = ('All trees up to the bound x all assignments of words, commas, final marks, brackets and quotes: ud.FixPunct vs. its postconditions '
         '(projective punctuation without children, one subroot, dependencies among words kept, paired marks on the head of the enclosed subtree)')
ASSUMPTIONS = ['strict postconditions: if the words form a projective tree with one subroot, every final mark (.?!) follows a word (only closing or other final marks may be between them) and every pair encloses a word',
               'otherwise only: a tree with one subroot labeled root, the words and their order unchanged']


def BOUNDS(tier):
    return {'nodes': 5 if tier == 'quick' else 6, 'kinds_in_6_nodes': '' if tier == 'quick' else 'w . " / w ( , )', 'long_trees_words': 12, 'nodes_with_all_kinds': 3, 'nodes_with_most_kinds': 4, 'nested_pairs': 3, 'words_in_nested_pairs': 3 if tier == 'quick' else 4, 'kinds_in_5_nodes': 'w , . ( )' if tier == 'quick' else 'w , . ( ) "'}


# form, UPOS
KINDS = {'w': ('w', 'NOUN'), ',': (',', 'PUNCT'), '.': ('.', 'PUNCT'), '(': ('(', 'PUNCT'), ')': (')', 'PUNCT'), '"': ('"', 'PUNCT'),
         's': ('"', 'SYM'), 'b': ('(', 'SYM'), 'e': (')', 'SYM'), '?': ('?', 'PUNCT'), '¿': ('¿', 'PUNCT'), '„': ('„', 'PUNCT'), '“': ('“', 'PUNCT'), '”': ('”', 'PUNCT')}
CLOSING = {'(': ')', '"': '"', '¿': '?', '„': '“', '“': '”'}


def single(n):
    return [h for h in trees.head_vectors(n) if h.count(0) == 1]


def shards(tier):
    result = [{'kind': 'all', 'n': n, 'heads': list(heads)} for n in (1, 2, 3) for heads in trees.head_vectors(n)]
    result += [{'kind': 'most', 'heads': list(heads)} for heads in trees.head_vectors(4)]
    for heads in single(5):
        result.append({'kind': 'five', 'heads': list(heads), 'marks': 'w,.()' if tier == 'quick' else 'w,.()"'})
        if tier == 'quick':
            result.append({'kind': 'five', 'heads': list(heads), 'marks': 'w."'})
    if tier == 'thorough':
        result += [{'kind': 'six', 'heads': list(heads), 'marks': marks} for heads in single(6) for marks in ('w."', 'w(,)')]
    for opening, closing in ('()', '""'):
        for words in (3,) if tier == 'quick' else (3, 4):
            for heads in single(words):
                if not any(crossed(dict(enumerate(heads, 1)), i) for i in range(1, words + 1)):
                    result.append({'kind': 'nested', 'heads': list(heads), 'opening': opening, 'closing': closing})
    result += [{'kind': 'long', 'heads': list(heads)} for heads in trees.long_trees()]
    return result[::-1]


def brackets(pairs, words):
    """All well-bracketed sequences of the given number of pairs and words."""
    def extend(prefix, level):
        opened, written = prefix.count('('), prefix.count('w')
        if opened == pairs and written == words and not level:
            yield prefix
        if opened < pairs:
            yield from extend(prefix + '(', level + 1)
        if level:
            yield from extend(prefix + ')', level - 1)
        if written < words:
            yield from extend(prefix + 'w', level)
    return extend('', 0)


def expand(heads, marks, style):
    """Heads of words (among words) -> heads of words and marks."""
    where = [i for i, mark in enumerate(marks, 1) if mark == 'w']
    result, rest = [], list(heads)
    for i, mark in enumerate(marks, 1):
        if mark == 'w':
            head = rest.pop(0)
            result.append(head and where[head - 1])
        elif style == 'top':
            result.append(where[heads.index(0)])
        elif style == 'left':
            result.append(max([k for k in where if k < i], default=where[0]))
        elif style == 'right':
            result.append(min([k for k in where if k > i], default=where[-1]))
        else:
            result.append(where[-1])
    return result


def run_shard(shard, rec):
    heads, n = tuple(shard['heads']), len(shard['heads'])
    if shard['kind'] == 'nested':
        for pairs in (2, 3):
            for marks in brackets(pairs, n):
                marks = marks.replace(')', shard['closing']).replace('(', shard['opening'])
                for style in ('top', 'left', 'right', 'last'):
                    rec.run({'heads': expand(heads, marks, style), 'marks': marks, 'upos': 0, 'copy': 0})
    elif shard['kind'] == 'long':
        for i, j in itertools.combinations(range(n), 2):
            for one, two in (',,', ',.', '.,', '()', '""', '„“', ')(', '(w', 'w.'):
                marks = ['w'] * n
                marks[i], marks[j] = one, two
                rec.run({'heads': heads, 'marks': ''.join(marks), 'upos': 0, 'copy': 0})
        for size in (2, 3, 4):
            for part in [*itertools.product('w,.', repeat=size), *itertools.product('w()', repeat=size)]:
                if 'w' in part:
                    rec.run({'heads': heads, 'marks': (''.join(part) * n)[:n], 'upos': 0, 'copy': 0})
    elif shard['kind'] == 'all':
        for marks in itertools.product(KINDS, repeat=n):
            for upos, copy in itertools.product((0, 1), repeat=2):
                rec.run({'heads': heads, 'marks': ''.join(marks), 'upos': upos, 'copy': copy})
    elif shard['kind'] == 'most':
        for number, marks in enumerate(itertools.product('w,.()"s', repeat=4)):
            if heads.count(0) == 1 or number % 5 == 0:
                rec.run({'heads': heads, 'marks': ''.join(marks), 'upos': number % 2, 'copy': number // 2 % 2})
        for marks in itertools.product('„“”¿?bew', repeat=4):
            if marks.count('w') in (2, 3):
                rec.run({'heads': heads, 'marks': ''.join(marks), 'upos': 0, 'copy': 0})
    else:
        for marks in itertools.product(shard['marks'], repeat=n):
            if marks[heads.index(0)] == 'w':
                rec.run({'heads': heads, 'marks': ''.join(marks), 'upos': 0, 'copy': 0})


def contracted(heads, marks):
    """{word: nearest ancestor which is a word (or 0)}"""
    result = {}
    for i, mark in enumerate(marks, 1):
        if mark == 'w':
            head = heads[i - 1]
            while head and marks[head - 1] != 'w':
                head = heads[head - 1]
            result[i] = head
    return result


def above(parents, i):
    """The node i and all its ancestors except for the root."""
    result = [i]
    while parents[result[-1]]:
        result.append(parents[result[-1]])
    return result


def crossed(parents, i):
    """Is the edge to the node i non-projective (in the tree {node: parent})?"""
    head = parents[i]
    return bool(head) and any(min(i, head) < k < max(i, head) and head not in above(parents, k) for k in parents)


def find_pairs(marks):
    """Pairs of positions of opening and closing marks."""
    pairs, closed = [], set()
    for i, mark in enumerate(marks, 1):
        if i not in closed and mark in CLOSING:
            level = 0
            for k in range(i + 1, len(marks) + 1):
                if marks[k - 1] == CLOSING[mark]:
                    if not level:
                        pairs.append((i, k))
                        closed.add(k)
                        break
                    level -= 1
                elif marks[k - 1] == mark:
                    level += 1
    return pairs


def is_strict(heads, marks, pairs):
    if any(m in 'sbe' for m in marks) or marks[heads.index(0)] != 'w' or heads.count(0) != 1:
        return False
    parents = contracted(heads, marks)
    if any(crossed(parents, i) for i in parents):
        return False
    if any('w' not in marks[start:end - 1] for start, end in pairs):
        return False
    closings = {end for _, end in pairs}
    for i, mark in enumerate(marks, 1):
        if mark in '.?':
            k = i - 1
            while k and (marks[k - 1] in '.?' or k in closings):
                k -= 1
            if not k or marks[k - 1] != 'w':
                return False
    return True


def run_case(case, rec):
    from udapi.block.ud.fixpunct import FixPunct
    heads, marks = case['heads'], case['marks']
    n = len(heads)
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    for node, mark in zip(nodes[1:], marks):
        node.form, node.upos = KINDS[mark]
        node.deprel = 'root' if node.parent is root else 'punct' if mark != 'w' else 'dep'
        node.misc['N'] = str(node.ord)
        if case['copy'] and mark == 'w':
            node.deps = [{'parent': root, 'deprel': 'enh'}]
    FixPunct(check_paired_punct_upos=bool(case['upos']), copy_to_enhanced=bool(case['copy'])).process_tree(root)
    rec.step()
    rec.trace()
    context = f"{''.join(marks)} {heads} -> {[node.parent.ord for node in nodes[1:]]}"
    rec.state(context)
    trees.check_tree(root)
    equal(root.descendants, nodes[1:], 'words-moved', context)
    for node, mark in zip(nodes[1:], marks):
        equal([node.form, node.upos, str(node.misc)], [*KINDS[mark], f'N={node.ord}'], 'attributes', context)
    equal(len(root.children), 1, 'subroots', context)
    equal(root.children[0].udeprel, 'root', 'root-label', context)
    if case['copy']:
        for node in nodes[1:]:
            if node.upos == 'PUNCT':
                equal([(d['parent'].ord, d['deprel']) for d in node.deps], [(node.parent.ord, node.deprel)], 'enhanced', context)
            elif node.form == 'w' and heads.count(0) == 1 and marks[heads.index(0)] == 'w':
                equal([(d['parent'].ord, d['deprel']) for d in node.deps], [(0, 'enh')], 'enhanced-words', context)
    pairs = find_pairs(marks)
    if not is_strict(heads, marks, pairs):
        return
    rec.count('strict')
    result = {i: nodes[i].parent.ord for i in range(1, n + 1)}
    before, after = contracted(heads, marks), contracted([result[i] for i in range(1, n + 1)], marks)
    equal(after, before, 'words-reattached', context)
    for i, mark in enumerate(marks, 1):
        if mark != 'w':
            require(i not in result.values(), 'punctuation-with-children', f'{context} node {i}')
        else:
            equal(nodes[i].deprel, 'root' if not result[i] else 'dep', 'word-label', context)
        require(not crossed(result, i), 'non-projective', f'{context} node {i}')
    # what depended on punctuation depends on its nearest non-punctuation ancestor after the first phase
    middle = {}
    for i in range(1, n + 1):
        head = heads[i - 1]
        while head and marks[head - 1] != 'w':
            head = heads[head - 1]
        middle[i] = head
    inside_of = {i for start, end in pairs for i in (start, end)}
    for start, end in pairs:
        inner = range(start + 1, end)
        # other pairs may be attached differently before this pair is processed
        if any(not (s in inner and e in inner or s < start and e > end or e < start or s > end) for s, e in pairs if (s, e) != (start, end)):
            continue
        tops = [i for i in inner if marks[i - 1] == 'w' and not start < middle[i] < end]
        outer = [i for i in range(1, n + 1) if not start <= i <= end and start < middle[i] < end]
        if len(tops) == 1 and not outer:
            rec.count('pairs')
            equal([result[start], result[end]], tops * 2, 'paired-marks', context)
            continue
        # a mark may not be attached outside of the enclosed words
        for i in (start, end):
            require(start < result[i] < end, 'pair-outside', context)
    # an isolated mark is attached to the lowest acceptable unit, never across a bracket
    for i, mark in enumerate(marks, 1):
        if mark in ',.' and i not in inside_of:
            for start, end in pairs:
                # if the enclosed words are not one subtree, the mark may belong to their common head
                if start < i < end and sum(marks[k - 1] == 'w' and not start < middle[k] < end for k in range(start + 1, end)) == 1:
                    require(start < result[i] < end, 'across-bracket', f'{context} node {i}')
