"""C17: aligning tokens with plain text: tokenizers, readers of texts, and blocks setting SpaceAfter or adding goeswith."""
import io
import itertools
import re

from mc.core import require, equal, raises
from mc import trees
from mc.checks.c16 import ranges

TITLE = ('All short texts x tokenizers; all short token sequences x multi-word tokens x initial SpaceAfter x all ways to write them with white space, for the blocks and '
         'readers which align tokens with a text, vs. a reference model')
ASSUMPTIONS = ['stored texts do not start with white space', 'ud.GoeswithFromText: multi-word tokens are not interrupted by spaces']
FORMS = ('a', 'ab', '.', 'a b')
CHARS = ('a', 'Č', '_', '.', ' ', '\t', '\u00a0')


def BOUNDS(tier):
    big = tier != 'quick'
    return {'text_characters': 6 if big else 5, 'tokens': 4 if big else 3, 'goeswith_tokens': 3, 'heuristic_tokens': 5 if big else 4, 'lines': 6 if big else 5,
            'characters': list(CHARS), 'forms': list(FORMS)}


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'tokenize', 'length': n, 'first': c} for n in range(1, bounds['text_characters'] + 1) for c in range(len(CHARS))] + [{'kind': 'tokenize', 'length': 0, 'first': 0}]
    result += [{'kind': 'space', 'count': n, 'mwts': m} for n in range(1, bounds['tokens'] + 1) for m in ranges(n)] + [{'kind': 'space', 'count': 0, 'mwts': []}]
    result += [{'kind': 'goeswith', 'count': n} for n in range(1, bounds['goeswith_tokens'] + 1)]
    result += [{'kind': 'heuristic', 'count': n, 'first': f} for n in range(1, bounds['heuristic_tokens'] + 1) for f in range(len(MARKS))] + [{'kind': 'heuristic', 'count': 0, 'first': 0}]
    result += [{'kind': 'long', 'heads': list(heads)} for heads in trees.long_trees()]
    result += [{'kind': 'addtext', 'first': i} for i in range(len(SEPARATORS))]
    result += [{'kind': 'addsentences'}]
    result += [{'kind': 'text', 'count': n} for n in range(0, bounds['lines'] + 1)]
    return result[::-1]


MARKS = ('a', '.', '(', '"', '“', '„')
SEPARATORS = ('', ' ', '\n', '\n\n', '\n\n\n', '  \n', ' \n')


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'tokenize':
        n = shard['length']
        for rest in itertools.product(CHARS, repeat=max(0, n - 1)):
            text = (CHARS[shard['first']] if n else '') + ''.join(rest)
            for block in ('OnWhitespace', 'Simple'):
                for keep in (0, 1):
                    rec.run({'kind': kind, 'text': text, 'block': block, 'keep': keep})
    elif kind == 'space':
        n = shard['count']
        for forms in itertools.product(FORMS, repeat=n):
            for before in itertools.product((0, 1), repeat=n):
                for spaces in itertools.product(('', ' ', '  ') if n < 4 else ('', ' '), repeat=max(0, n - 1 - sum(b - a for a, b in shard['mwts']))):
                    for last in ('', ' '):
                        rec.run({'kind': kind, 'forms': forms, 'mwts': shard['mwts'], 'before': before, 'spaces': spaces + (last,)})
    elif kind == 'long':
        n = 12
        repeat = lambda part: tuple(part * n)[:n]
        for size in (1, 2, 3):
            for forms in itertools.product(FORMS, repeat=size):
                for spaces in itertools.product(('', ' '), repeat=size):
                    rec.run({'kind': 'space', 'forms': repeat(forms), 'mwts': (), 'before': (0,) * n, 'spaces': repeat(spaces)})
                    rec.run({'kind': 'space', 'forms': repeat(forms), 'mwts': (), 'before': (1, 0) * 6, 'spaces': repeat(spaces)})
            for forms in itertools.product(('a', 'bc', 'Def'), repeat=size):
                total = sum(map(len, repeat(forms)))
                for spaces in itertools.product((0, 1), repeat=size + 1):
                    rec.run({'kind': 'goeswith', 'heads': shard['heads'], 'forms': repeat(forms), 'spaces': (spaces * total)[:total - 1], 'keep': 1, 'mwt': 0})
            for forms in itertools.product(MARKS, repeat=size) if not shard['heads'][0] else ():
                rec.run({'kind': 'heuristic', 'forms': repeat(forms), 'mwt': None, 'previous': None, 'goeswith': 0})
    elif kind == 'goeswith':
        n = shard['count']
        for heads in trees.head_vectors(n):
            for forms in itertools.product(('a', 'bc', 'Def'), repeat=n):
                size = sum(map(len, forms))
                for spaces in itertools.product((0, 1), repeat=size - 1):
                    for keep in (0, 1):
                        rec.run({'kind': kind, 'heads': heads, 'forms': forms, 'spaces': spaces, 'keep': keep, 'mwt': 0})
                    rec.run({'kind': 'goeswith_none', 'heads': heads, 'forms': forms, 'spaces': spaces})
                    if n == 2 and not any(spaces[:size - 1 - len(forms[1])]):
                        rec.run({'kind': kind, 'heads': heads, 'forms': forms, 'spaces': spaces, 'keep': 0, 'mwt': 1})
    elif kind == 'heuristic':
        n = shard['count']
        for rest in itertools.product(MARKS, repeat=max(0, n - 1)):
            forms = ((MARKS[shard['first']],) if n else ()) + rest
            rec.run({'kind': kind, 'forms': forms, 'mwt': None, 'previous': None, 'goeswith': 0})
            if n <= 3:
                for previous in ('„ a “', '“ a', '" a', ''):
                    rec.run({'kind': kind, 'forms': forms, 'mwt': None, 'previous': previous, 'goeswith': 0})
                for goeswith in range(2, n + 1):
                    rec.run({'kind': kind, 'forms': forms, 'mwt': None, 'previous': None, 'goeswith': goeswith})
                for mwt in ranges(n):
                    if mwt:
                        rec.run({'kind': kind, 'forms': forms, 'mwt': mwt, 'previous': None, 'goeswith': 0})
    elif kind == 'addtext':
        for seps in itertools.product(SEPARATORS, repeat=3):
            for sizes in ((1, 2, 1), (2, 2), (1, 1, 2), (4,)):
                for start in ('', '\n', ' \n\n'):
                    for end in ('', '\n', ' ', '\n\n'):
                        if shard['first'] == SEPARATORS.index(seps[0]):
                            rec.run({'kind': kind, 'sizes': sizes, 'spaces': seps, 'start': start, 'end': end, 'newpar': 1})
                            if not start:
                                rec.run({'kind': kind, 'sizes': sizes, 'spaces': seps, 'start': start, 'end': end, 'newpar': 0})
    elif kind == 'addsentences':
        for count in range(0, 4):
            for lines in itertools.product(('a b', ' c ', ''), repeat=count):
                for into in ('text', 'en'):
                    for comment in ('', ' old', ' old\n', ' one\n two\n'):
                        for zone in ('', 'en'):
                            rec.run({'kind': kind, 'lines': lines, 'into': into, 'comment': comment, 'zone': zone, 'extra': count % 2})
        rec.run({'kind': kind, 'lines': [], 'into': 'text', 'comment': '', 'zone': '', 'extra': 2})
    elif kind == 'text':
        for lines in itertools.product(('a b\n', 'b \n', '\n', 'c\r\n', '\r\n', 'd'), repeat=shard['count']):
            if 'd' not in lines[:-1]:
                rec.run({'kind': kind, 'lines': lines})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()
    rec.state(str(case))


# ---------------------------------------------------------------- tokenizers
ESCAPES = {' ': '\\s', '\t': '\\t', '\r': '\\r', '\n': '\\n'}


def expected_tokens(text, simple):
    """List of (form, white space after)."""
    result, i = [], 0
    while i < len(text):
        j = i
        if text[i].isspace():
            while j < len(text) and text[j].isspace():
                j += 1
            if result:
                result[-1] = (result[-1][0], text[i:j])
        elif not simple:
            while j < len(text) and not text[j].isspace():
                j += 1
            result.append((text[i:j], ''))
        elif text[i].isalnum() or text[i] == '_':
            while j < len(text) and (text[j].isalnum() or text[j] == '_'):
                j += 1
            result.append((text[i:j], ''))
        else:
            j += 1
            result.append((text[i:j], ''))
        i = j
    return result


def case_tokenize(case, rec):
    import udapi.block.tokenize.onwhitespace
    import udapi.block.tokenize.simple
    text, simple, keep = case['text'], case['block'] == 'Simple', case['keep']
    root = trees.new_doc_root()
    root.text = text
    block = udapi.block.tokenize.simple.Simple if simple else udapi.block.tokenize.onwhitespace.OnWhitespace
    block(keep_spaces=bool(keep)).run(root.document)
    want = []
    tokens = expected_tokens(text, simple)
    for i, (form, space) in enumerate(tokens):
        misc = {}
        escaped = ''.join(ESCAPES.get(c, c) for c in space)
        before = ''.join(ESCAPES.get(c, c) for c in text[:len(text) - len(text.lstrip())])
        if keep:
            if i == 0 and before:
                misc['SpacesBefore'] = before
            if not space:
                misc['SpaceAfter'] = 'No'
            elif space != ' ':
                misc['SpacesAfter'] = escaped
        elif not space and i + 1 < len(tokens):
            misc['SpaceAfter'] = 'No'
        want.append((i + 1, form, misc))
    equal([(n.ord, n.form, dict(n.misc)) for n in root.descendants], want, 'tokens', str(case))
    trees.check_tree(root)
    equal(root.text, text, 'text-changed', str(case))
    if not keep and (not simple or tokens):
        equal(root.compute_text(), ' '.join(text.split()), 'text-of-tokens', str(case))
    if tokens:
        require(isinstance(raises(lambda: block().run(root.document)), ValueError), 'tokenized-twice', str(case))


# ---------------------------------------------------------------- SetSpaceAfterFromText
def build(forms, mwts, before, heads=None):
    """A tree and the list of its tokens; MWT forms are concatenated words with M in front."""
    heads = heads or tuple(range(len(forms)))
    nodes = trees.build(heads, labels=forms, in_doc=True)
    for node, no in zip(nodes[1:], before):
        if no:
            node.misc['SpaceAfter'] = 'No'
    for first, last in mwts:
        nodes[0].create_multiword_token(nodes[first:last + 1], form='M' + ''.join(forms[first - 1:last]).replace(' ', ''))
    return nodes


def case_space(case, rec):
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    nodes = build(case['forms'], case['mwts'], case['before'])
    root = nodes[0]
    empty = root.create_empty_child(form='E', misc='SpaceAfter=No|X=1')
    empty.ord = '1.1' if case['forms'] else '0.1'
    tokens = root.token_descendants
    forms = [t.form for t in tokens]
    root.text = ''.join(form + space for form, space in zip(forms, case['spaces']))
    text = root.text
    plain = [(n.form, n.parent.ord, n.deprel) for n in root.descendants]
    SetSpaceAfterFromText().run(root.document)
    where = str(case)
    equal(root.compute_text(), re.sub(' +', ' ', text).strip(), 'text-of-tokens', where)
    want = ['' if space or i + 1 == len(forms) else 'No' for i, space in enumerate(case['spaces'][:len(forms)])]
    got = [t.misc['SpaceAfter'] for t in tokens]
    # if the text has already been right, the last token may keep SpaceAfter=No
    require(got == want or (got[:-1] == want[:-1] and text == root.compute_text()), 'space-after', lambda: f'{where}: got {got}, want {want}')
    equal(root.text, text, 'text-changed', where)
    equal([(n.form, n.parent.ord, n.deprel) for n in root.descendants], plain, 'words-changed', where)
    equal([t.form for t in root.token_descendants], forms, 'tokens-changed', where)
    equal(str(empty.misc), 'X=1', 'misc-of-empty-node', where)
    root.text = None
    require(isinstance(raises(lambda: SetSpaceAfterFromText().run(root.document)), ValueError), 'missing-text-accepted', where)


# ---------------------------------------------------------------- GoeswithFromText
def case_goeswith(case, rec):
    from udapi.block.ud.goeswithfromtext import GoeswithFromText
    forms, keep = case['forms'], bool(case['keep'])
    nodes = build(forms, (), [0] * len(forms), case['heads'])
    root = nodes[0]
    size = sum(map(len, forms))
    letters = ''.join(forms)
    spaces = list(case['spaces']) + [0]
    text = ''.join(c + (' ' if s else '') for c, s in zip(letters, spaces))
    if case['mwt']:
        # the first token is a MWT of two more words
        first = nodes[1].create_child(form='m1', deprel='x')
        first.shift_before_node(nodes[1])
        root.create_multiword_token([first, nodes[1]], form=forms[0])
        nodes[1].form = 'm2'
    for node in root.descendants:
        node.lemma, node.xpos, node.upos = 'L' + node.form, 'x', 'U'
    root.text = text
    heads = {n: n.parent for n in root.descendants}
    GoeswithFromText(keep_lemma=keep).run(root.document)
    where = str(case)
    trees.check_tree(root)
    equal(root.compute_text(), text, 'text-of-tokens', where)
    equal(root.text, text, 'text-changed', where)
    for node, parent in heads.items():
        require(node.parent is parent, 'head-changed', where)
    want, position = [], 0
    for i, form in enumerate(forms):
        inner = spaces[position:position + len(form)]
        parts, part = [], ''
        for c, s in zip(form, inner):
            part += c
            if s:
                parts.append(part)
                part = ''
        if part:
            parts.append(part)
        position += len(form)
        after = '' if inner[-1] or position == size else 'No'
        if case['mwt'] and i == 0:
            want += [('m1', 'x', 'Lm1', ''), ('m2', 'dep', 'Lm2', '')]
            equal(root.multiword_tokens[0].misc['SpaceAfter'], after, 'space-after-mwt', where)
            continue
        label = None if keep else 0
        lemma = 'L' + form if len(parts) == 1 or keep else parts[0].lower()
        want.append((parts[0], 'dep', lemma, after if len(parts) == 1 else ''))
        for k, p in enumerate(parts[1:], 2):
            want.append((p, 'goeswith', None if keep else p, after if k == len(parts) else ''))
    equal([(n.form, n.deprel, n.lemma, n.misc['SpaceAfter']) for n in root.descendants], want, 'words', where)
    previous = None
    for node in root.descendants:
        if node.deprel == 'goeswith':
            require(node.parent is previous and (node.upos, node.xpos) == ('U', 'x'), 'goeswith-head', where)
        else:
            previous = node


def case_goeswith_none(case, rec):
    """A text which already corresponds to the tokens, or which has other letters, is not touched."""
    from udapi.block.ud.goeswithfromtext import GoeswithFromText
    forms = case['forms']
    ends = list(itertools.accumulate(map(len, forms)))
    letters = ''.join(forms)
    spaces = list(case['spaces']) + [0]
    text = ''.join(c + (' ' if s else '') for c, s in zip(letters, spaces))
    for last in (0, 1):
        for variant in ('same', 'letter', 'missing', 'extra'):
            after = [not spaces[e - 1] for e in ends]
            after[-1] = bool(last)
            nodes = build(forms, (), after, case['heads'])
            root = nodes[0]
            inner = any(s for i, s in enumerate(spaces) if s and i + 1 not in ends)
            if variant == 'same' and inner:
                continue
            root.text = {'same': text, 'letter': 'x' + text[1:], 'missing': text[:-1], 'extra': text + 'x'}[variant]
            before = (root.text, [(n.form, n.lemma, n.deprel, str(n.misc), n.parent.ord) for n in root.descendants])
            GoeswithFromText().run(root.document)
            equal((root.text, [(n.form, n.lemma, n.deprel, str(n.misc), n.parent.ord) for n in root.descendants]), before, 'unrelated-changed', f'{case} {variant} {last}')


# ---------------------------------------------------------------- SetSpaceAfter
NOT_AFTER = '¡ ¿ ( [ { „ /'.split(' ')
NOT_BEFORE = '. , ; : ! ? } ] ) / ?? ??? !! !!! ... …'.split(' ')


def heuristic(forms, goeswith, options):
    """The positions (from 0) of words which get SpaceAfter=No."""
    n, result = len(forms), set()
    not_after = (options['not_after'].split() if 'not_after' in options else NOT_AFTER) + options.get('extra_not_after', '').split()
    not_before = (options['not_before'].split() if 'not_before' in options else NOT_BEFORE) + options.get('extra_not_before', '').split()
    quotes = [i for i, f in enumerate(forms) if f == '"']
    opening = set(quotes[0::2]) if len(quotes) % 2 == 0 else ({0} & set(quotes))
    closing = set(quotes[1::2]) if len(quotes) % 2 == 0 else set()
    closing |= {n - 1} & set(quotes)
    for i in range(n - 1):
        if forms[i] in not_after or forms[i + 1] in not_before or i in opening or i + 1 in closing:
            result.add(i)
        if '„' in forms and forms[i + 1] == '“' or '„' not in forms and forms[i] == '“':
            result.add(i)
    return result - ({goeswith - 2} if goeswith else set())


def case_heuristic(case, rec):
    for options in ({}, {'fix_text': False}, {'extra_not_after': '. ab', 'extra_not_before': 'a „'}, {'not_after': 'a', 'not_before': ''}):
        heuristic_options(case, rec, options)


def heuristic_options(case, rec, options):
    from udapi.block.ud.setspaceafter import SetSpaceAfter
    forms = case['forms']
    nodes = build(forms, (), [0] * len(forms))
    root = nodes[0]
    if case['goeswith']:
        nodes[case['goeswith']].deprel = 'goeswith'
    for first, last in case['mwt'] or ():
        root.create_multiword_token(nodes[first:last + 1], form='M')
    block = SetSpaceAfter(**options)
    if case['previous'] is not None:
        other = build(case['previous'].split(), (), [0] * 5)
        block.process_tree(other[0])
    root.text = 'stored'
    block.process_tree(root)
    where = f'{case} {options}'
    marked = heuristic(forms, case['goeswith'], options)
    inside = {i: last for first, last in case['mwt'] or () for i in range(first, last + 1)}
    want, text, changed = [], '', False
    tokens = root.token_descendants
    for i, node in enumerate(nodes[1:], 1):
        if i in inside:
            equal(node.misc['SpaceAfter'], '', 'space-after-in-mwt', where)
            if inside[i] == i:
                equal(node.multiword_token.misc['SpaceAfter'], 'No' if i - 1 in marked else '', 'space-after-mwt', where)
                changed = changed or i - 1 in marked
        else:
            equal(node.misc['SpaceAfter'], 'No' if i - 1 in marked else '', 'space-after', f'{where} word {i}')
            changed = changed or i - 1 in marked
    equal(root.text, root.compute_text() if changed and options.get('fix_text', True) else 'stored', 'text', where)
    equal([t.form for t in tokens], [t.form for t in root.token_descendants], 'tokens-changed', where)
    equal([n.parent.ord for n in root.descendants], list(range(len(forms))), 'heads-changed', where)


# ---------------------------------------------------------------- readers adding texts
def case_addtext(case, rec):
    from udapi.block.read.addtext import AddText
    from udapi.core.document import Document
    doc = Document()
    forms = iter(['a', 'B.', 'a', 'c'])
    gaps = list(case['spaces']) + [case['end']]
    text, position, want = case['start'], 0, []
    newpar = True
    for size in case['sizes']:
        tree = doc.create_bundle().create_tree()
        sentence, spaces = '', []
        start_newpar = newpar
        for _ in range(size):
            form = next(forms)
            tree.create_child(form=form, misc='SpaceAfter=No' if position % 2 else '_')
            gap = gaps[position]
            text += form + gap
            spaces.append('' if gap or position == 3 else 'No')
            sentence += form + (' ' if gap or position == 3 else '')
            newpar = gap.startswith('\n\n')
            position += 1
        want.append((sentence.rstrip(), True if start_newpar and case['newpar'] else None, spaces))
    reader = AddText(filehandle=io.StringIO(text), add_newpar=bool(case['newpar']))
    reader.apply_on_document(doc)
    got = [(t.text, t.newpar or None, [n.misc['SpaceAfter'] for n in t.descendants]) for t in doc.trees]
    equal(got, want, 'texts', str(case))
    equal(reader.finished, True, 'finished', str(case))


def case_addsentences(case, rec):
    from udapi.block.read.addsentences import AddSentences
    from udapi.core.document import Document
    doc = Document()
    count = len(case['lines'])
    for _ in range(count + (case['extra'] == 2)):
        bundle = doc.create_bundle()
        for zone in ('', 'en'):
            tree = bundle.create_tree(zone)
            tree.create_child(form='x')
            tree.text, tree.comment = 'x', case['comment']
    content = ''.join(line + '\n' for line in case['lines']) + ('more\n' if case['extra'] == 1 else '')
    reader = AddSentences(filehandle=io.StringIO(content), zone=case['zone'], into=case['into'])
    if case['extra'] == 2:
        require(isinstance(raises(lambda: reader.apply_on_document(doc)), IOError), 'missing-lines-accepted', str(case))
        return
    reader.apply_on_document(doc)
    for bundle, line in zip(doc.bundles, case['lines']):
        for tree in bundle:
            old = case['comment'] + ('\n' if case['comment'] and case['comment'][-1] != '\n' else '')
            mine = tree.zone == case['zone']
            equal(tree.text, line.rstrip() if mine and case['into'] == 'text' else 'x', 'text', str(case))
            equal(tree.comment, old + f' en = {line.rstrip()}\n' if mine and case['into'] == 'en' else case['comment'], 'comments', str(case))
    text = doc.to_conllu_string()
    if case['into'] == 'en':
        equal([x for x in text.split('\n') if x.startswith('# en = ')], ['# en = ' + x.rstrip() for x in case['lines']], 'saved-comments', str(case))


def case_text(case, rec):
    from udapi.block.read.text import Text
    from udapi.core.document import Document
    doc = Document()
    Text(filehandle=io.StringIO(''.join(case['lines']), newline='')).apply_on_document(doc)
    want = [[]]
    for line in case['lines']:
        if line.strip('\r\n'):
            want[-1].append(line.rstrip())
        else:
            want.append([])
    equal([t.text for t in doc.trees], [' '.join(w) for w in want if w], 'sentences', str(case))
