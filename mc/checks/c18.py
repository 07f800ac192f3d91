"""C18: blocks which split, join or mark tokens keep the text and the rest of the tree."""
import itertools
import re
import unicodedata

from mc.core import require, equal
from mc import trees
from mc.checks.c16 import ranges

TITLE = ('All trees of a few words x all multi-word tokens x marks x options of the blocks which add, remove, split or join words and multi-word tokens, vs. a reference model; '
         'all short token sequences x all short texts x options of ud.ComplyWithText against its guarantees')
ASSUMPTIONS = ['ud.JoinToken: no enhanced dependencies', 'ud.SplitUnderscoreTokens: words with underscores are not parts of multi-word tokens',
               'ud.JoinAsMwt: forms are not empty', 'ud.ComplyWithText: stored texts are not empty and forms have no spaces']
FORMS = ('a', 'b', '.', 'a.', 'ab', '-', 'ba')
OPTIONS = ({}, {'fix_text': False}, {'prefer_mwt': False}, {'allow_goeswith': False}, {'allow_add_punct': False}, {'allow_delete_punct': False},
           {'allow_hyphen_goeswith': False}, {'max_mwt_length': 1}, {'previous_form_label': ''}, {'previous_text_label': ''}, {'previous_form_label': 'Old', 'previous_text_label': 'Before', 'added_label': 'New'})

EDITS = ('nospace', 'space', 'insert', 'insert2', 'delete', 'delete_mwt', 'typo', 'longer', 'split', 'split3', 'contract', 'contract3', 'number', 'hyphen', 'mwt_form', 'mwt_insert', 'nospaces')
EDIT_WORDS = ['Ab', 'cde', 'fghi', 'jk', 'lmn']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'removemwt_words': 5 if big else 4, 'joinasmwt_words': 5 if big else 4, 'addmwt_words': 4 if big else 3, 'join_words': 5 if big else 4, 'split_words': 4 if big else 3,
            'comply_words': 3, 'comply_edited_words': 5 if big else 4, 'comply_text_of_3_words': 4 if big else 3, 'comply_text': 5 if big else 4, 'comply_options': len(OPTIONS), 'forms': list(FORMS)}


def texts(limit):
    for size in range(1, limit + 1):
        for chars in itertools.product('ab. ', repeat=size):
            text = ''.join(chars)
            if text == ' '.join(text.split()):
                yield text


def mwt_choices(count):
    """Choices of at most one multi-word token: (first, last, form)."""
    yield None
    for first in range(1, count):
        for last in range(first + 1, count + 1):
            for form in ('a', 'ab', '.'):
                yield (first, last, form)


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(1, bounds['removemwt_words'] + 1):
        result += [{'kind': 'removemwt', 'heads': h} for h in trees.head_vectors(n)] if n < 5 else [{'kind': 'removemwt', 'heads': h} for h in trees.head_vectors(n)]
    result += [{'kind': 'joinasmwt', 'count': n, 'mwts': m} for n in range(0, bounds['joinasmwt_words'] + 1) for m in ranges(n)]
    result += [{'kind': 'fixmwtspace', 'count': n} for n in range(1, 5)]
    result += [{'kind': 'addmwt', 'heads': h} for n in range(1, bounds['addmwt_words'] + 1) for h in trees.head_vectors(n)]
    result += [{'kind': 'languages'}]
    result += [{'kind': 'complybefore'}]
    result += [{'kind': 'complyone', 'count': n, 'edit': e} for n in range(1, bounds['comply_edited_words'] + 1) for e in EDITS]
    result += [{'kind': 'join', 'heads': h} for n in range(1, bounds['join_words'] + 1) for h in trees.head_vectors(n)]
    result += [{'kind': 'split', 'heads': h} for n in range(1, bounds['split_words'] + 1) for h in trees.head_vectors(n)]
    for number in range(len(OPTIONS)):
        for count in range(1, bounds['comply_words'] + 1):
            for mwt in mwt_choices(count):
                if tier == 'quick' and mwt and mwt[2] != 'ab' and (count == 3 or number > 2):
                    continue
                if count < 3:
                    result.append({'kind': 'comply', 'options': number, 'count': count, 'mwt': mwt, 'first': None, 'limit': bounds['comply_text']})
                elif (mwt is None or mwt[:2] != (1, 3)) and (number in (0, 2) or tier != 'quick'):
                    result += [{'kind': 'comply', 'options': number, 'count': 3, 'mwt': mwt, 'first': f, 'limit': bounds['comply_text_of_3_words']} for f in FORMS]
    return result


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'removemwt':
        for mwts in ranges(len(shard['heads'])):
            if mwts:
                rec.run({'kind': kind, 'heads': shard['heads'], 'mwts': mwts})
    elif kind == 'joinasmwt':
        n = shard['count']
        for forms in itertools.product(('a', 'b1', '.', '1č'), repeat=n):
            for no in itertools.product((0, 1), repeat=n):
                for original in (0, 1):
                    rec.run({'kind': kind, 'forms': forms, 'no': no, 'original': original, 'mwts': shard['mwts']})
    elif kind == 'fixmwtspace':
        n = shard['count']
        for mwts in ranges(n):
            for choices in itertools.product(range(4), repeat=len(mwts)):
                for no in itertools.product((0, 1), repeat=len(mwts)):
                    rec.run({'kind': kind, 'count': n, 'mwts': mwts, 'choices': choices, 'no': no})
    elif kind == 'addmwt':
        heads = shard['heads']
        n = len(heads)
        for target in range(1, n + 1):
            for old in [None] + [m[0] for m in ranges(n) if len(m) == 1 and m[0][0] <= target <= m[0][1]]:
                for size in (1, 2, 3):
                    for main in range(size):
                        for shape in ('siblings', 'subtree', None):
                            for style in ('x', 'X', 'Xy', 'XY'):
                                for values in range(4):
                                    rec.run({'kind': kind, 'heads': heads, 'target': target, 'old': old, 'size': size, 'main': main, 'shape': shape, 'style': style, 'values': values})
    elif kind == 'languages':
        for language in ('ca', 'cs', 'de', 'el', 'es', 'fr', 'la', 'pt'):
            rec.run({'kind': kind, 'language': language})
    elif kind == 'join':
        heads = shard['heads']
        n = len(heads)
        for marks in itertools.product((0, 1), repeat=n):
            for no in itertools.product((0, 1), repeat=n):
                for mwt in [None] + [m[0] for m in ranges(n) if len(m) == 1]:
                    if n < 4 or mwt is None:
                        rec.run({'kind': kind, 'heads': heads, 'marks': marks, 'no': no, 'mwt': mwt, 'value': None})
        if n == 3:
            for marks in itertools.product((0, 1, 2), repeat=n):
                for value in ('1', '2'):
                    rec.run({'kind': kind, 'heads': heads, 'marks': marks, 'no': (1,) * n, 'mwt': None, 'value': value})
    elif kind == 'split':
        heads = shard['heads']
        n = len(heads)
        for forms in itertools.product(('a', 'a_b', 'c_d_e', '_'), repeat=n):
            for lemma in ('split', 'form', 'short'):
                for no in (0, 1):
                    for deprel, upos in ((None, 'PROPN'), (None, 'ADP'), (None, 'X'), ('compound', 'PROPN')):
                        rec.run({'kind': kind, 'heads': heads, 'forms': forms, 'lemma': lemma, 'no': no, 'deprel': deprel, 'upos': upos})
        for form in ('_a', 'a_', 'a__b', '__'):
            rec.run({'kind': kind, 'heads': heads, 'forms': (form,) + ('x',) * (n - 1), 'lemma': 'form', 'no': 0, 'deprel': None, 'upos': 'X'})
    elif kind == 'complybefore':
        for count in range(1, 5):
            for marks in itertools.product('!?(', repeat=count):
                for spaces in itertools.product(('', ' '), repeat=count):
                    for layout in range(4):
                        rec.run({'kind': kind, 'marks': marks, 'spaces': spaces, 'layout': layout})
    elif kind == 'complyone':
        n = shard['count']
        for heads in trees.head_vectors(n) if n < 4 else [tuple(range(n)), (0,) + (1,) * (n - 1), (n,) * (n - 1) + (0,)]:
            for at in range(n):
                for no in itertools.product((0, 1), repeat=n - 1):
                    for options in range(len(OPTIONS)):
                        rec.run({'kind': kind, 'heads': heads, 'edit': shard['edit'], 'at': at, 'no': no, 'options': options})
    elif kind == 'comply':
        n = shard['count']
        for forms in itertools.product(FORMS, repeat=n):
            if shard['first'] in (None, forms[0]):
                for no in itertools.product((0, 1), repeat=n - 1):
                    for text in texts(shard['limit']):
                        rec.run({'kind': kind, 'forms': forms, 'no': no, 'text': text, 'mwt': shard['mwt'], 'options': shard['options']})
            if n == 2:
                for text in (' a', 'a  b', 'a\u00a0b ', 'a b '):
                    rec.run({'kind': kind, 'forms': forms, 'no': (0,), 'text': text, 'mwt': shard['mwt'], 'options': shard['options']})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()
    rec.state(str(case))


def words(root, *attributes):
    return [tuple(str(getattr(n, a)) if a in ('feats', 'misc') else n.parent.ord if a == 'head' else getattr(n, a) for a in attributes) for n in root.descendants]


# ---------------------------------------------------------------- RemoveMwt
def case_removemwt(case, rec):
    from udapi.block.ud.removemwt import RemoveMwt
    heads = case['heads']
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    feats, inside, later = [None], {}, {}
    for i, node in enumerate(nodes[1:], 1):
        node.feats['F%d' % (i % 2)] = str(i)
        node.deprel, node.upos, node.misc['W'] = f'd{i}', 'X', str(i)
        if i == 1:
            node.misc['SpaceAfter'] = 'No'
    for number, (first, last) in enumerate(case['mwts']):
        mwt = root.create_multiword_token(nodes[first:last + 1], form='M' * (number + 1), misc='SpaceAfter=No|Z=1' if number == 0 else None)
        for i in range(first, last + 1):
            inside[i] = (first, last, mwt.form, str(mwt.misc))
    text = root.compute_text()
    root.text = text
    RemoveMwt().run(root.document)
    where = str(case)
    trees.check_tree(root)
    equal(root.compute_text(), text, 'text-of-tokens', where)
    equal(root.text, text, 'text', where)
    equal(root.multiword_tokens, [], 'multiword-tokens', where)
    kept = [i for i in range(1, len(heads) + 1) if i not in inside or inside[i][0] == i]
    number = {i: k for k, i in enumerate(kept, 1)}
    number[0] = 0
    want = []
    for i in kept:
        head = heads[i - 1]
        while head not in number:
            head = heads[head - 1]
        form, misc, features = trees.LABELS[i - 1], f'W={i}' if i != 1 else 'SpaceAfter=No|W=1', {f'F{i % 2}': str(i)}
        if i in inside:
            first, last, form, misc = inside[i]
            for j in range(first + 1, last + 1):
                features[f'F{j % 2}'] = str(j)
        want.append((form, number[head], f'd{i}', 'X', '|'.join(f'{k}={v}' for k, v in sorted(features.items())), misc))
    equal(words(root, 'form', 'head', 'deprel', 'upos', 'feats', 'misc'), want, 'words', where)


# ---------------------------------------------------------------- JoinAsMwt
def case_joinasmwt(case, rec):
    from udapi.block.ud.joinasmwt import JoinAsMwt
    forms = case['forms']
    n = len(forms)
    nodes = trees.build(tuple(range(n)), labels=forms, in_doc=True)
    root = nodes[0]
    nos = [no and not any(first <= i <= last for first, last in case['mwts']) for i, no in enumerate(case['no'], 1)]
    for node, no in zip(nodes[1:], nos):
        if no:
            node.misc['SpaceAfter'] = 'No'
            node.misc['OrigForm'] = 'o' + node.form
    inside = {}
    for first, last in case['mwts']:
        root.create_multiword_token(nodes[first:last + 1], form='M')
        inside.update({i: (first, last) for i in range(first, last + 1)})
    text = root.compute_text()
    JoinAsMwt(revert_orig_form=bool(case['original'])).run(root.document)
    where = str(case)
    want = {(first, last): ('M', '_') for first, last in case['mwts']}
    attributes = [[form, str(misc)] for form, misc in zip(forms, ['OrigForm=o%s|SpaceAfter=No' % f if no else '_' for f, no in zip(forms, nos)])]
    i = 1
    while i <= n:
        j = i
        while j < n and i not in inside and j + 1 not in inside and nos[j - 1] and forms[j - 1][-1].isalpha() and forms[j][0].isalpha():
            j += 1
        if j > i:
            want[(i, j)] = (''.join(forms[i - 1:j]), 'SpaceAfter=No' if nos[j - 1] else '_')
            for k in range(i, j + 1):
                if nos[k - 1]:
                    attributes[k - 1] = ['o' + forms[k - 1], '_'] if case['original'] else [forms[k - 1], 'OrigForm=o' + forms[k - 1]]
        i = j + 1
    got = {(m.words[0].ord, m.words[-1].ord): (m.form, str(m.misc)) for m in root.multiword_tokens}
    equal(got, want, 'multiword-tokens', where)
    require(all(len(m.words) == m.words[-1].ord - m.words[0].ord + 1 for m in root.multiword_tokens), 'multiword-token-words', where)
    equal([list(x) for x in words(root, 'form', 'misc')], attributes, 'words', where)
    equal(root.compute_text(), text, 'text-of-tokens', where)
    equal([x.parent.ord for x in root.descendants], list(range(n)), 'heads', where)


# ---------------------------------------------------------------- FixMwtSpace
def case_fixmwtspace(case, rec):
    from udapi.block.ud.fixmwtspace import FixMwtSpace
    n = case['count']
    nodes = trees.build((0,) * n, in_doc=True)
    root = nodes[0]
    want = {}
    for (first, last), choice, no in zip(case['mwts'], case['choices'], case['no']):
        forms = trees.LABELS[first - 1:last]
        form = (' '.join(forms), 'x y', forms, forms[0] + ' ' + forms[1:] + 'z')[choice]
        root.create_multiword_token(nodes[first:last + 1], form=form, misc='SpaceAfter=No' if no else None)
        if form != ' '.join(forms):
            want[(first, last)] = form
    text = root.compute_text()
    FixMwtSpace().run(root.document)
    where = str(case)
    equal({(m.words[0].ord, m.words[-1].ord): m.form for m in root.multiword_tokens}, want, 'multiword-tokens', where)
    equal(root.compute_text(), text, 'text-of-tokens', where)
    equal(words(root, 'form', 'head'), [(x, 0) for x in trees.LABELS[:n]], 'words', where)


# ---------------------------------------------------------------- AddMwt
VALUES = ({}, {'upos': 'U1 U2 U3', 'feats': '_ A=1|F=* G=2', 'deprel': '* d2 d3', 'lemma': 'l1 * l3'},
          {'misc': '* M=2 _', 'feats': '* _ A=2', 'deprel': 'd1 * d3'}, {'misc': 'M=1 * _', 'xpos': 'x1 x2 *', 'lemma': '* * *', 'feats': 'F=* * F=*|Z=1'})


def analysis_of(case):
    """What the subclass in this check returns, all attributes are lists of `size` values."""
    size = case['size']
    result = {'form': ' '.join(('first', 'second', 'third')[:size])}
    if case['main'] or case['shape']:
        result['main'] = case['main']
    if case['shape']:
        result['shape'] = case['shape']
    for attribute, values in VALUES[case['values']].items():
        result[attribute] = ' '.join(values.split()[:size])
    return result


def case_addmwt(case, rec):
    from udapi.block.ud.addmwt import AddMwt
    analysis = analysis_of(case)
    heads, target, size, main = case['heads'], case['target'], case['size'], case['main']
    n = len(heads)
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    for i, node in enumerate(nodes[1:], 1):
        node.form, node.lemma, node.upos, node.xpos, node.deprel, node.misc = f'w{i}', f'l{i}', 'U', f'x{i}', f'd{i}', f'Entity=e{i}|Q={i}|SpaceAfter=No'
        node.feats = f'F={i}'
    word = nodes[target]
    word.form = case['style']
    if case['old']:
        first, last = case['old']
        for node in nodes[first:last + 1]:
            del node.misc['SpaceAfter']
        root.create_multiword_token(nodes[first:last + 1], form='OLD', misc='SpaceAfter=No|Old=1')
    text = root.compute_text()
    seen = []

    class Tested(AddMwt):
        """Split one word only."""
        def multiword_analysis(self, node):
            return dict(analysis) if node is word else None

        def postprocess_mwt(self, mwt):
            seen.append(mwt)
    Tested().run(root.document)
    where = str(case)
    trees.check_tree(root)
    equal(root.compute_text(), text, 'text-of-tokens', where)

    forms = ['first', 'second', 'third'][:size]
    if case['style'] in ('X', 'XY'):
        forms = [f.upper() for f in forms]
    elif case['style'] == 'Xy':
        forms[0] = 'First'

    def moved(position, part=None):
        """New position of an old one."""
        return position if position < target else position + size - 1 if position > target else target + main if part is None else target + part
    base = {'lemma': f'l{target}', 'upos': 'U', 'xpos': f'x{target}', 'deprel': f'd{target}', 'feats': f'F={target}'}
    misc_names = [] if case['old'] else ['SpaceAfter']
    table = []
    star_misc = False
    for part in range(size):
        row = dict(base, misc='_') if part == main else {'lemma': None, 'upos': None, 'xpos': None, 'deprel': None, 'feats': '_', 'misc': '_'}
        for attribute, values in analysis.items():
            if attribute in row:
                value = values.split()[part]
                if attribute == 'misc':
                    if value == '*':
                        star_misc = True
                        value = f'Entity=e{target}|Q={target}'
                elif value == '*':
                    value = base[attribute]
                else:
                    value = value.replace('F=*', f'F={target}')
                row[attribute] = value
        row['form'] = forms[part]
        row['head'] = moved(heads[target - 1]) if part == main or case['shape'] != 'subtree' else target + main
        table.append(row)
    # the annotation of entities stays on words
    misc0 = table[0]['misc'].split('|') if table[0]['misc'] != '_' else []
    misc0 = dict(x.split('=') for x in misc0)
    misc0['Entity'] = f'e{target}'
    table[0]['misc'] = '|'.join(f'{k}={v}' for k, v in sorted(misc0.items()))
    rows = []
    for i in range(1, n + 1):
        if i == target:
            rows += table
        else:
            inside = case['old'] and case['old'][0] <= i <= case['old'][1]
            rows.append({'form': f'w{i}', 'lemma': f'l{i}', 'upos': 'U', 'xpos': f'x{i}', 'deprel': f'd{i}', 'feats': f'F={i}', 'head': moved(heads[i - 1]),
                         'misc': f'Entity=e{i}|Q={i}' + ('' if inside else '|SpaceAfter=No')})
    names = ['form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'head', 'misc']
    got = words(root, *names)
    want = [tuple(row[name] for name in names) for row in rows]
    if star_misc:
        # not specified whether MISC of the token is copied or moved to the words
        got, want = [g[:-1] for g in got], [w[:-1] for w in want]
    equal([tuple(x or None for x in g) for g in got], [tuple(x or None for x in w) for w in want], 'words', where)
    equal([(m.words[0].ord, m.words[-1].ord, len(m.words)) for m in root.multiword_tokens],
          [(case['old'][0], case['old'][1] + size - 1, case['old'][1] - case['old'][0] + size) if case['old'] else (target, target + size - 1, size)], 'multiword-tokens', where)
    mwt = root.multiword_tokens[0]
    equal(seen, [mwt], 'postprocess', where)
    equal(mwt.form, 'OLD' if case['old'] else case['style'], 'multiword-form', where)
    require(mwt.misc['SpaceAfter'] == 'No' and not mwt.misc['Entity'] and all(w.misc['SpaceAfter'] == '' for w in mwt.words), 'multiword-misc', where)
    equal(mwt.misc['Old'], '1' if case['old'] else '', 'multiword-misc', where)
    require(not star_misc or any(w.misc['Q'] == str(target) for w in mwt.words) or mwt.misc['Q'] == str(target), 'misc-lost', where)


def case_languages(case, rec):
    """All words in the lists of the language-specific blocks."""
    import importlib
    module = importlib.import_module(f'udapi.block.ud.{case["language"]}.addmwt')
    for form, entry in sorted(module.MWTS.items()):
        for written in (form, form.upper(), form.capitalize()):
            for upos in ('ADP', 'PRON', 'VERB'):
                for heads, position in (((0, 1, 2), 1), ((2, 0, 2), 0), ((3, 3, 0), 2), ((0, 1, 1), 2), ((0, 1, 1), 0), ((0, 1, 1), 1)):
                    nodes = trees.build(heads, labels=['zz', 'zz', 'zz'], in_doc=True)
                    root = nodes[0]
                    node = nodes[position + 1]
                    node.form, node.upos, node.lemma, node.deprel = written, upos, form, 'case'
                    for x in nodes[1:]:
                        if position % 2:
                            x.misc['SpaceAfter'] = 'No'
                    text = root.compute_text()
                    module.AddMwt().run(root.document)
                    where = f'{case} {written} {upos} {heads}'
                    trees.check_tree(root)
                    equal(root.compute_text(), text, 'text-of-tokens', where)
                    require(len(root.multiword_tokens) <= 1 and all(m.form == written for m in root.multiword_tokens), 'multiword-tokens', where)
                    want = entry['form'].split() if root.multiword_tokens else [written]
                    if root.multiword_tokens:
                        equal([w.form.lower() for w in root.multiword_tokens[0].words], [w.lower() for w in want], 'words', where)
                    equal(len(root.descendants), 2 + len(want), 'count', where)
                    rec.step()


# ---------------------------------------------------------------- JoinToken
def case_join(case, rec):
    from udapi.block.ud.jointoken import JoinToken
    heads, n = case['heads'], len(case['heads'])
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    forms, head, deprel, misc = {}, {}, {}, {}
    for i, node in enumerate(nodes[1:], 1):
        node.deprel = f'd{i}'
        if case['marks'][i - 1]:
            node.misc['JoinToken'] = str(case['marks'][i - 1])
        if case['no'][i - 1]:
            node.misc['SpaceAfter'] = 'No'
        forms[i], head[i], deprel[i], misc[i] = node.form, heads[i - 1], node.deprel, dict(node.misc)
    inside = set()
    if case['mwt']:
        first, last = case['mwt']
        root.create_multiword_token(nodes[first:last + 1], form='M')
        inside = set(range(first, last + 1))
        for i in inside:
            misc[i].pop('SpaceAfter', None)
    text = root.compute_text()
    JoinToken(misc_value=case['value']).run(root.document)
    where = str(case)
    trees.check_tree(root)
    equal(root.compute_text(), text, 'text-of-tokens', where)
    alive = list(range(1, n + 1))
    for i in range(1, n + 1):
        mark = case['marks'][i - 1]
        if not mark or case['value'] and str(mark) != case['value']:
            continue
        index = alive.index(i)
        before = alive[index - 1] if index else None
        if before is None or i in inside or before in inside:
            misc[i]['Bug'] = 'JoiningTokenNotSupportedHere'
            continue
        if misc[before].get('SpaceAfter') != 'No':
            misc[i]['Bug'] = 'JoiningTokensWithSpaceNotSupported'
            continue
        # before is a descendant of i
        ancestor = head[before]
        while ancestor and ancestor != i:
            ancestor = head[ancestor]
        if ancestor == i:
            head[before], deprel[before] = head[i], deprel[i]
        for j in alive:
            if head[j] == i:
                head[j] = before
        forms[before] += forms[i]
        misc[before].pop('SpaceAfter')
        if 'SpaceAfter' in misc[i]:
            misc[before]['SpaceAfter'] = 'No'
        alive.remove(i)
    number = {i: k for k, i in enumerate([0] + alive)}
    want = [(forms[i], number[head[i]], deprel[i], misc[i]) for i in alive]
    got = [(x.form, x.parent.ord, x.deprel, {k: v for k, v in x.misc.items() if v}) for x in root.descendants]
    equal(got, want, 'words', where)


# ---------------------------------------------------------------- SplitUnderscoreTokens
def case_split(case, rec):
    from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
    forms, heads = case['forms'], case['heads']
    nodes = trees.build(heads, labels=forms, in_doc=True)
    root = nodes[0]
    for node in nodes[1:]:
        node.lemma = 'l' + node.form if case['lemma'] != 'short' else 'l_m'
        node.upos, node.xpos, node.deprel = case['upos'], 'x', 'd'
        if case['no']:
            node.misc['SpaceAfter'] = 'No'
    SplitUnderscoreTokens(deprel=case['deprel'], default_deprel='new', lemma='form' if case['lemma'] == 'form' else 'split').run(root.document)
    where = str(case)
    trees.check_tree(root)
    relation = case['deprel'] or {'PROPN': 'flat', 'ADP': 'fixed', 'X': 'new'}[case['upos']]
    plan = []
    for i, form in enumerate(forms, 1):
        lemma = 'l' + form if case['lemma'] == 'split' else 'l_m' if case['lemma'] == 'short' else None
        parts = form.split('_') if form != '_' else [form]
        if not all(parts):
            parts = [form]
        if case['lemma'] == 'form':
            lemmas = list(parts) if '_' in form and form != '_' else ['l' + form]
        else:
            lemmas = lemma.split('_')
        if len(parts) == 1 or len(lemmas) != len(parts):
            parts, lemmas = [form], ['l' + form if lemma is None else lemma]
        for k, (part, lem) in enumerate(zip(parts, lemmas)):
            plan.append((i, k, part, lem, 'SpaceAfter=No' if case['no'] and k + 1 == len(parts) else '_', len(parts)))
    number = {(i, k): position for position, (i, k, *_) in enumerate(plan, 1)}
    number[(0, 0)] = 0
    want = []
    for i, k, part, lem, misc, total in plan:
        head = number[(heads[i - 1], 0)] if k == 0 else number[(i, 0)]
        want.append((part, lem, case['upos'], 'x', head, relation if k else 'd', misc))
    got = words(root, 'form', 'lemma', 'upos', 'xpos', 'head', 'deprel', 'misc')
    if any(not all(f.split('_')) and f != '_' for f in forms):
        # lemmas of words which cannot be split are not specified with lemma=form
        got, want = [g[:1] + g[2:] for g in got], [w[:1] + w[2:] for w in want]
    equal(got, want, 'words', where)


# ---------------------------------------------------------------- ComplyWithText
def is_punct(form):
    return bool(form) and all(unicodedata.category(c)[0] == 'P' for c in form)


def case_comply(case, rec):
    from udapi.block.ud.complywithtext import ComplyWithText
    forms, options, count = case['forms'], OPTIONS[case['options']], len(case['forms'])
    nodes = trees.build((0,) + tuple(range(1, count)), labels=forms, in_doc=True)
    root = nodes[0]
    for i, node in enumerate(nodes[1:], 1):
        node.upos, node.deprel, node.lemma = 'U', f'd{i}', f'l{i}'
        if i < count and case['no'][i - 1]:
            node.misc['SpaceAfter'] = 'No'
    old_mwt = None
    if case['mwt']:
        first, last, form = case['mwt']
        old_mwt = root.create_multiword_token(nodes[first:last + 1], form=form)
    old_words = list(nodes[1:])
    old_parent = {n: n.parent for n in old_words}
    old_form = {n: n.form for n in old_words}
    if old_mwt:
        old_form[old_mwt] = old_mwt.form
    text = ' '.join(case['text'].split())
    fits = root.compute_text() == text
    before = words(root, 'form', 'misc', 'feats', 'head')
    root.text = case['text']
    ComplyWithText(**options).process_tree(root)
    where = str(case)
    trees.check_tree(root)
    now = root.compute_text()
    label = options.get('previous_text_label', 'OrigText')
    form_label = options.get('previous_form_label', 'CorrectForm')
    added = options.get('added_label', 'Added')
    if options.get('fix_text', True):
        equal(root.text, now, 'text-of-tokens', where)
        stored = [c.split(' = ', 1)[1] for c in root.comment.split('\n') if c.strip().startswith(label + ' = ')] if label else []
        expected = ([case['text']] if case['text'] != text else []) + ([text] if now != text else [])
        equal([' '.join(x.split()) for x in stored], [' '.join(x.split()) for x in expected] if label else [], 'original-text', where)
    else:
        equal(root.text, case['text'], 'text', where)
        equal(root.comment, '', 'comment', where)
    if fits:
        equal(words(root, 'form', 'misc', 'feats', 'head'), before, 'matching-tree-changed', where)
        equal(root.multiword_tokens, [old_mwt] if old_mwt else [], 'matching-tree-changed', where)
    survivors = [n for n in root.descendants if n in old_parent]
    equal(survivors, [n for n in old_words if n in survivors], 'word-order', where)
    deleted = set()
    for node in old_words:
        if node not in survivors:
            token = old_mwt if old_mwt and node in old_words[case['mwt'][0] - 1:case['mwt'][1]] else node
            require(is_punct(old_form[token]), 'word-deleted', where)
            require(options.get('allow_delete_punct', True), 'word-deleted', where)
            deleted.add(token)
            continue
        parent = old_parent[node]
        while parent is not root and parent not in survivors:
            parent = old_parent[parent]
        require(node.parent is parent, 'head', where)
        equal((node.upos, node.deprel, node.lemma), ('U', f'd{old_words.index(node) + 1}', f'l{old_words.index(node) + 1}'), 'attributes', where)
        if node.form != old_form[node]:
            equal(node.misc[form_label] if form_label else old_form[node], old_form[node], 'previous-form', where)
            require(form_label != 'CorrectForm' or node.feats['Typo'] == 'Yes', 'typo', where)
    if old_mwt:
        require(old_mwt in root.multiword_tokens or old_mwt in deleted, 'multiword-token-lost', where)
        if old_mwt in root.multiword_tokens:
            equal(old_mwt.words, old_words[case['mwt'][0] - 1:case['mwt'][1]], 'multiword-token-words', where)
            if old_mwt.form != case['mwt'][2] and form_label:
                equal(old_mwt.misc[form_label], case['mwt'][2], 'previous-form', where)
    previous = None
    for node in root.descendants:
        require(node.form and ' ' not in node.form, 'form', where)
        if node in survivors:
            previous = node
            continue
        if node.deprel == 'goeswith':
            require(options.get('allow_goeswith', True) and node.upos == 'X', 'goeswith', where)
            require(node.parent is previous and node.parent.feats['Typo'] == 'Yes', 'goeswith-head', where)
        else:
            equal((node.deprel, node.upos, str(node.misc[added])), ('punct', 'PUNCT', '1'), 'added-word', where)
            require(is_punct(node.form) and options.get('allow_add_punct', True), 'added-word', where)
    for mwt in root.multiword_tokens:
        require(mwt.form and ' ' not in mwt.form, 'form', where)
        if mwt is not old_mwt:
            require(2 <= len(mwt.words) <= options.get('max_mwt_length', 4), 'multiword-token-length', where)
            require(all(w in survivors for w in mwt.words), 'multiword-token-words', where)
            require(options.get('prefer_mwt', True) or ''.join(old_form[w] for w in mwt.words) != mwt.form, 'multiword-token-not-preferred', where)
            require(mwt.form in text, 'multiword-form', where)
    # after the first mark which does not fit the text nothing is promised; tokens which spell the text have right marks
    if now == text:
        rest = text
        for token in root.token_descendants:
            rest = rest[len(token.form):]
            require((token.misc['SpaceAfter'] == 'No') == bool(rest and rest[0] != ' '), 'space-after', where)
            rest = rest.lstrip()
    # texts which only differ in spaces between words are always solved, without changing any word
    if not old_mwt and '.' not in text and '-' not in forms and '.' not in ''.join(forms) and len(set(forms)) == count and spaced(forms, text):
        equal(now, text, 'unsolved', where)
        equal([n.form for n in root.descendants], list(forms), 'words-changed', where)


def case_complybefore(case, rec):
    """Punctuation missing before the first word."""
    from udapi.block.ud.complywithtext import ComplyWithText
    layout = case['layout']
    nodes = trees.build(((0, 1, 1), (2, 0, 2), (0, 1, 1), (0,))[layout], labels=('Ab', 'cde', 'fgh'), in_doc=True)
    root, old = nodes[0], nodes[1:]
    if layout == 2:
        root.create_multiword_token(old[:2], form='Xyz')
    heads = [n.parent for n in old]
    rest = root.compute_text()
    marks = ''.join(m + s for m, s in zip(case['marks'], case['spaces']))
    root.text = text = marks + rest
    ComplyWithText().process_tree(root)
    where = f'{case} {text!r}'
    trees.check_tree(root)
    equal((root.text, root.compute_text(), root.comment), (text, text, ''), 'marks-before', where)
    new = list(root.descendants)[:-len(old)]
    equal(list(root.descendants)[-len(old):], old, 'marks-before', where)
    equal([n.parent for n in old], heads, 'marks-before', where)
    equal([n.form for n in new], marks.split(), 'marks-before', where)
    for node in new:
        equal((node.parent, node.deprel, node.upos, str(node.misc['Added'])), (old[0], 'punct', 'PUNCT', '1'), 'marks-before', where)


def case_complyone(case, rec):
    """A single difference between the words (without common letters) and the text is solved exactly as documented."""
    from udapi.block.ud.complywithtext import ComplyWithText
    heads, at, edit, options = case['heads'], case['at'], case['edit'], OPTIONS[case['options']]
    n = len(heads)
    forms = EDIT_WORDS[:n]
    nos = list(case['no']) + [0]
    form_label = options.get('previous_form_label', 'CorrectForm')
    added = options.get('added_label', 'Added')
    # expected words: [form, head, deprel, upos, feats, misc (without SpaceAfter)], referring to the original ones by their number
    want = [[i, form, heads[i - 1], f'd{i}', 'U', '_', {}] for i, form in enumerate(forms, 1)]
    mwts = {}
    old_mwt = None
    text = [[form, not no] for form, no in zip(forms, nos)]
    solved = True

    def changed(row, form, old):
        row[1] = form
        if form_label:
            row[6][form_label] = old
            if form_label == 'CorrectForm':
                row[5] = 'Typo=Yes'
    node = at + 1
    if edit == 'nospace':
        if at == n - 1 or nos[at]:
            return
        text[at][1] = False
    elif edit == 'nospaces':
        # all spaces are missing
        if n < 2 or at or any(nos):
            return
        text = [[form, False] for form in forms]
    elif edit == 'space':
        if at == n - 1 or not nos[at]:
            return
        text[at][1] = True
    elif edit in ('insert', 'insert2'):
        # punctuation after a word
        marks = ['!'] if edit == 'insert' else ['!', '?']
        after = text[at][1]
        text[at][1] = edit == 'insert2'
        for i, mark in enumerate(marks):
            text.insert(at + 1 + i, [mark, after if i == len(marks) - 1 else True])
            want.insert(at + 1 + i, [None, mark, node, 'punct', 'PUNCT', '_', {added: '1'}])
        if not options.get('allow_add_punct', True):
            if edit == 'insert2' or not after or (at and nos[at - 1]):
                return
            # nothing may be added, so the word itself is taken as misspelled
            del want[at + 1]
            changed(want[at], forms[at] + '!', forms[at])
    elif edit in ('delete', 'delete_mwt'):
        forms = forms[:at] + ['!?'] + forms[at + 1:]
        if n == 1 or (at and nos[at - 1]) or nos[at]:
            return
        if edit == 'delete_mwt':
            if node == n:
                return
            forms[at + 1] = '?'
            old_mwt = (node, node + 1, '!?')
            text = [t for i, t in enumerate(text) if i not in (at, at + 1)]
            if not text or nos[at + 1]:
                return
        else:
            text = [t for i, t in enumerate(text) if i != at]
        solved = options.get('allow_delete_punct', True)
        gone = (node, node + 1) if edit == 'delete_mwt' else (node,)
        for row in want:
            while row[2] in gone:
                row[2] = heads[row[2] - 1]
        want = [row for row in want if row[0] not in gone]
    elif edit in ('typo', 'longer'):
        text[at][0] = forms[at][:-1] + 'x' if edit == 'typo' else forms[at] + 'x'
        if not text[at][1] or (at and not text[at - 1][1]):
            return
        changed(want[at], text[at][0], forms[at])
    elif edit in ('split', 'split3'):
        parts = [forms[at][0], forms[at][1:]] if edit == 'split' else [forms[at][0], forms[at][1:2], forms[at][2:]]
        if not all(parts) or nos[at] or (at and nos[at - 1]):
            return
        text[at:at + 1] = [[part, True] for part in parts]
        changed(want[at], parts[0], forms[at])
        want[at][5] = 'Typo=Yes'
        for i, part in enumerate(parts[1:], 1):
            want.insert(at + i, [None, part, node, 'goeswith', 'X', '_', {}])
        solved = options.get('allow_goeswith', True)
    elif edit in ('contract', 'contract3'):
        size = 2 if edit == 'contract' else 3
        if at + size > n or any(nos[at:at + size]) or (at and nos[at - 1]):
            return
        form = forms[at][0] + 'x' * (size - 2) + forms[at + size - 1][-1]
        text[at:at + size] = [[form, True]]
        mwts[(node, at + size)] = form
        if size > options.get('max_mwt_length', 4):
            solved = False
    elif edit == 'number':
        forms[at] = '10000,5'
        if nos[at] or (at and nos[at - 1]):
            return
        text[at] = ['10 000,5', True]
        changed(want[at], '10 000,5', '10000,5')
    elif edit == 'hyphen':
        forms[at] = 'o-p-q'
        if nos[at] or (at and nos[at - 1]):
            return
        text[at:at + 1] = [['o', True], ['p', True], ['q', True]]
        changed(want[at], 'o', 'o-p-q')
        want[at][5] = 'Typo=Yes'
        want.insert(at + 1, [None, 'p', node, 'goeswith', 'X', '_', {}])
        want.insert(at + 2, [None, 'q', node, 'goeswith', 'X', '_', {}])
        solved = options.get('allow_goeswith', True) and options.get('allow_hyphen_goeswith', True)
    else:
        if at == n - 1 or nos[at]:
            return
        old_mwt = (node, node + 1, 'opq')
        text[at:at + 2] = [['opr' if edit == 'mwt_form' else 'opq', not nos[at + 1]]]
        if edit == 'mwt_insert':
            if not text[at][1]:
                return
            text[at][1] = False
            text.insert(at + 1, ['!', True])
            want.insert(at + 2, [None, '!', node + 1, 'punct', 'PUNCT', '_', {added: '1'}])
            mwts[old_mwt[:2]] = 'opq'
            if not options.get('allow_add_punct', True):
                del want[at + 2]
                mwts[old_mwt[:2]] = 'opq!'
        else:
            if not text[at][1] or (at and not text[at - 1][1]):
                return
            mwts[old_mwt[:2]] = 'opr'
    nodes = trees.build(heads, labels=forms, in_doc=True)
    root = nodes[0]
    for i, x in enumerate(nodes[1:], 1):
        x.upos, x.deprel = 'U', f'd{i}'
        if nos[i - 1]:
            x.misc['SpaceAfter'] = 'No'
    if old_mwt:
        mwt = root.create_multiword_token(nodes[old_mwt[0]:old_mwt[1] + 1], form=old_mwt[2])
        if nos[old_mwt[1] - 1]:
            mwt.misc['SpaceAfter'] = 'No'
        for x in mwt.words:
            del x.misc['SpaceAfter']
    expected = ''.join(form + (' ' if space else '') for form, space in text).strip()
    root.text = expected
    before = words(root, 'form', 'head', 'deprel', 'upos', 'feats')
    ComplyWithText(**options).process_tree(root)
    where = str(case)
    trees.check_tree(root)
    if not solved:
        equal(words(root, 'form', 'head', 'deprel', 'upos', 'feats'), before, 'changed-although-not-allowed', where)
        require(root.compute_text() != expected, 'changed-although-not-allowed', where)
        return
    rec.count('solved')
    equal(root.compute_text(), expected, 'unsolved', where)
    equal(root.text, expected, 'text', where)
    number = {row[0]: position for position, row in enumerate(want, 1) if row[0]}
    number[0] = 0
    labels = {f: i for i, f in enumerate(forms, 1)}
    got = []
    for x in root.descendants:
        misc = {k: str(v) for k, v in x.misc.items() if k != 'SpaceAfter'}
        got.append([x.form, x.parent.ord, x.deprel, x.upos, str(x.feats), misc])
    equal(got, [[row[1], number[row[2]]] + row[3:] for row in want], 'words', where)
    got_mwts = {(m.words[0].ord, m.words[-1].ord): m.form for m in root.multiword_tokens}
    equal(got_mwts, {(number[a], number[b]): form for (a, b), form in mwts.items()}, 'multiword-tokens', where)
    if edit == 'mwt_form' and form_label:
        equal(root.multiword_tokens[0].misc[form_label], 'opq', 'previous-form', where)


def spaced(forms, text):
    """Is the text composed of the given words with at most one space after each?"""
    return re.fullmatch(' ?'.join(map(re.escape, forms)), text) is not None
