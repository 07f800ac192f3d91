"""C27: the other formats: CoNLL variants, CoNLL-U Plus, VISL-cg, Treex XML, write.Html, Tikz, Sdparse, Sentences, SentencesHtml, Corpus of Czech Verse."""
import contextlib
import html.parser
import io
import itertools
import json
import os
import re
import xml.etree.ElementTree as ElementTree

from mc.core import require, equal, workdir, raises
from mc import trees, conllu

TITLE = ('All trees up to the bound x special characters: the output of write.Vislcg, Treex, Html, Tikz, Sdparse, Sentences and SentencesHtml is decoded by independent parsers and compared with the trees; '
         'all column layouts x all head assignments: read.Conll, Conllup, Vislcg and Ccv vs. the table they were given')
ASSUMPTIONS = ['sent_id consists of letters, digits and hyphens', 'VISL-cg: no deprel or XPOS contains spaces or quotes, FEATS are non-empty strings; attributes which the format does not store are not compared',
               'Sdparse: forms contain no spaces', 'Tikz: enhanced dependencies lead between words', 'CCV: every poem has a stanza and every stanza has a verse']

SPECIAL = [chr(i) for i in range(33, 127)] + ['§', '§num.', '&amp;', '</script>', '<b>', '\\n', 'ž', '“', 'a b', '--', ']]>', '%d', '{{x}}', '%s', '<!--', "'\"", '#quot', '$[$', 'ab\\']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'words_long': 12, 'words': 5 if big else 4, 'words_visl': 5 if big else 4, 'words_conll': 4 if big else 3, 'special_strings': len(SPECIAL), 'column_layouts': len(LAYOUTS)}


LAYOUTS = (
    ('tab', 'ord,form,lemma,upos,xpos,feats,head,deprel,deps,misc'),
    ('tab', 'ord,form,lemma,upos,xpos,feats,head,deprel,_,_'),
    ('space', 'ord,form,lemma,_,upos,_,feats,_,head,_,deprel'),
    ('doublespace', 'ord,form,head,deprel'),
    ('tab', 'form,head,ord,lemma'),
    ('space', 'form,upos,head'),
    ('tab', 'misc,head,form,ord,deprel,deps'),
    ('tab', '_,head,form,feats,misc,lemma,ord'),
)
PLUS_LAYOUTS = (
    'ID FORM LEMMA UPOS XPOS FEATS HEAD DEPREL DEPS MISC',
    'ID FORM LEMMA UPOS XPOS FEATS HEAD DEPREL DEPS MISC PARSEME:MWE',
    'ID FORM LEMMA UPOS HEAD DEPREL BEGIN MISC END',
    'ID FORM HEAD',
    'FORM ID DEPREL HEAD COREF',
)


def vectors(n):
    return trees.head_vectors(n) if n else [()]


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(0, bounds['words'] + 1):
        for i in range(0, len(vectors(n)), 20):
            result.append({'kind': 'write', 'n': n, 'from': i, 'to': i + 20})
    for n in range(1, bounds['words_visl'] + 1):
        for i in range(0, len(vectors(n)), 20):
            result.append({'kind': 'vislcg', 'n': n, 'from': i, 'to': i + 20})
    result += [{'kind': 'special', 'from': i, 'to': i + 12} for i in range(0, len(SPECIAL), 12)]
    for n in range(1, bounds['words_conll'] + 1):
        for layout in range(len(LAYOUTS)):
            result.append({'kind': 'conll', 'n': n, 'layout': layout})
        for layout in range(len(PLUS_LAYOUTS)):
            result.append({'kind': 'plus', 'n': n, 'layout': layout})
    result += [{'kind': 'long', 'heads': list(heads)} for heads in trees.long_trees()]
    result += [{'kind': 'plusfiles'}, {'kind': 'bundles'}, {'kind': 'ccv'}, {'kind': 'enhanced'}]
    result += [{'kind': 'plusvalues'}, {'kind': 'tikzoptions'}]
    result += [{'kind': 'sentences', 'first': i} for i in range(len(SENTENCES))]
    return result[::-1]


def run_shard(shard, rec):
    kind, n = shard['kind'], shard.get('n', 0)
    if kind == 'write':
        for heads in vectors(n)[shard['from']:shard['to']]:
            for writer in ('treex', 'html', 'tikz', 'tikztree', 'sdparse', 'sentenceshtml'):
                rec.run({'kind': kind, 'writer': writer, 'heads': heads, 'labels': 'distinct'})
                if writer == 'sdparse':
                    for forms in itertools.product('ab', repeat=n):
                        for upos, feats, order in itertools.product((0, 1), repeat=3):
                            rec.run({'kind': kind, 'writer': writer, 'heads': heads, 'labels': ''.join(forms), 'upos': upos, 'feats': feats, 'order': order})
    elif kind == 'long':
        heads = tuple(shard['heads'])
        n = len(heads)
        for writer in ('treex', 'html', 'tikz', 'tikztree', 'sdparse', 'sentenceshtml'):
            rec.run({'kind': 'write', 'writer': writer, 'heads': heads, 'labels': 'distinct'})
        for size in (1, 2, 3):
            for forms in itertools.product('ab', repeat=size):
                for upos, feats, order in itertools.product((0, 1), repeat=3):
                    rec.run({'kind': 'write', 'writer': 'sdparse', 'heads': heads, 'labels': (''.join(forms) * n)[:n], 'upos': upos, 'feats': feats, 'order': order})
        for size in (1, 2, 3, 4):
            for cut in itertools.product((0, 1), repeat=size):
                for spaces in (0, 1):
                    rec.run({'kind': 'vislcg', 'heads': heads, 'cut': (cut * n)[:n - 1], 'spaces': spaces})
        for separator, columns in LAYOUTS:
            for fix in (0, 1):
                rec.run({'kind': 'conll', 'separator': separator, 'columns': columns, 'heads': heads, 'fix': fix})
            for extra in ('mwt', 'empty', 'both', 'nohead'):
                rec.run({'kind': 'conll', 'separator': separator, 'columns': columns, 'heads': heads, 'extra': extra})
        for columns in PLUS_LAYOUTS:
            for extra, explicit in itertools.product(('', 'mwt', 'empty', 'both'), (0, 1)):
                rec.run({'kind': 'plus', 'columns': columns, 'heads': heads, 'extra': extra, 'explicit': explicit, 'save': 0})
    elif kind == 'vislcg':
        for heads in vectors(n)[shard['from']:shard['to']]:
            for cut in itertools.product((0, 1), repeat=n - 1):
                for spaces in (0, 1):
                    rec.run({'kind': kind, 'heads': heads, 'cut': cut, 'spaces': spaces})
    elif kind == 'special':
        for string in SPECIAL[shard['from']:shard['to']]:
            for attr in ('form', 'lemma', 'upos', 'xpos', 'deprel', 'feats', 'misc', 'text', 'comment'):
                for place in (1, 2, 3):
                    for writer in ('treex', 'html', 'tikz', 'sdparse', 'sentenceshtml', 'vislcg'):
                        rec.run({'kind': kind, 'writer': writer, 'string': string, 'attr': attr, 'place': place})
    elif kind == 'conll':
        separator, columns = LAYOUTS[shard['layout']]
        for heads in itertools.product(range(-1, n + 2), repeat=n):
            for fix in (0, 1):
                rec.run({'kind': kind, 'separator': separator, 'columns': columns, 'heads': heads, 'fix': fix})
        for heads in vectors(n):
            for extra in ('mwt', 'empty', 'both', 'short', 'nohead', 'values'):
                rec.run({'kind': kind, 'separator': separator, 'columns': columns, 'heads': heads, 'extra': extra})
    elif kind == 'plus':
        for heads in vectors(n):
            for extra in ('', 'mwt', 'empty', 'both'):
                for explicit in (0, 1):
                    for save in (0, 1):
                        rec.run({'kind': kind, 'columns': PLUS_LAYOUTS[shard['layout']], 'heads': heads, 'extra': extra, 'explicit': explicit, 'save': save})
    elif kind == 'plusfiles':
        for layouts in itertools.product(range(len(PLUS_LAYOUTS)), repeat=2):
            for merge in (0, 1):
                rec.run({'kind': kind, 'layouts': layouts, 'merge': merge})
    elif kind == 'plusvalues':
        for layout in PLUS_LAYOUTS + ('ID FORM LEMMA UPOS XPOS FEATS HEAD DEPREL DEPS MISC _ PARSEME:MWE',):
            names = layout.split()
            for empty in [()] + [(name,) for name in names if name != 'ID'] + [tuple(name for name in names if name not in ('ID', 'HEAD', 'FORM')), tuple(names[1:])]:
                for head, strict, short in itertools.product(('1', '???'), (1, 0, None), range(3)):
                    rec.run({'kind': kind, 'columns': layout, 'empty': list(empty), 'head': head, 'strict': strict, 'short': short})
            if 'MISC' in names:
                for words, mark in itertools.product((1, 2), ('Empty=Yes', 'Empty=No', 'Empty=Yes|A=b')):
                    rec.run({'kind': 'plusempty', 'columns': layout, 'words': words, 'mark': mark})
    elif kind == 'tikzoptions':
        for flags in itertools.product((None, 0, 1), repeat=3):
            for as_tree, enhanced in ((0, 0), (1, 0), (0, 1)):
                for attribute, comment in itertools.product((None, 'text_en', 'text.en'), ('', ' text_en = A & B\n', ' a\n text_en = C_d\n b\n', ' xtext_en = C\n', ' text_en=C\n', ' text.en = D = E\n text_en = F\n')):
                    rec.run({'kind': kind, 'flags': list(flags), 'as_tree': as_tree, 'enhanced': enhanced, 'attribute': attribute, 'comment': comment})
    elif kind == 'sentences':
        for n in range(1, 4):
            for rest in itertools.product(range(len(SENTENCES)), repeat=n - 1):
                for missing in ('detokenize', 'empty', 'warn_detokenize', 'warn_empty', 'fatal', None):
                    for newdoc, newpar in ((None, None), (1, None), (None, 1), (1, 1)):
                        rec.run({'kind': kind, 'bundles': [shard['first']] + list(rest), 'missing': missing, 'newdoc': newdoc, 'newpar': newpar})
    elif kind == 'bundles':
        for layout in itertools.product(('', ' ', 'en', 'en_x', 'en_y', 'cs'), repeat=3):
            if len(set(layout) - {''}) == len([x for x in layout if x]):
                for split in (0, 1, 2):
                    for writer in ('treex', 'html', 'tikz', 'sdparse', 'sentenceshtml'):
                        rec.run({'kind': kind, 'zones': layout, 'split': split, 'writer': writer})
    elif kind == 'enhanced':
        for heads in vectors(2) + vectors(3):
            n = len(heads)
            for deps in itertools.product(range(n + 1), repeat=n):
                rec.run({'kind': kind, 'heads': heads, 'deps': deps})
    else:
        for stanzas in itertools.product((1, 2), repeat=2):
            for poems in (1, 2):
                for tokenize in (0, 1):
                    for puncts in itertools.product(('', ',', '!?'), repeat=3):
                        rec.run({'kind': 'ccv', 'stanzas': stanzas, 'poems': poems, 'tokenize': tokenize, 'puncts': puncts})


def written(block_class, doc, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        block = block_class(**kwargs)
        block.before_process_document(doc)
        block.process_document(doc)
        block.after_process_document(doc)
    return out.getvalue()


def make_doc(heads, forms=None, feats=True):
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = trees.build_into(root, heads)
    for i, node in enumerate(nodes[1:], 1):
        node.form, node.lemma, node.upos, node.xpos, node.deprel = (forms[i - 1] if forms else f'f{i}'), f'l{i}', f'U{i}', f'x{i}', f'd{i}'
        if feats:
            node.feats['A'] = str(i)
            node.misc['M'] = str(i)
    root.text = root.compute_text() if heads else None
    return doc, nodes


def run_case(case, rec):
    rec.state(str(case))
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()


# ---------------------------------------------------------------- plain sentences

# trees of a bundle: (zone, text, newdoc, newpar)
SENTENCES = (
    [('', 'Hello  there!', None, None)], [('', None, None, None)], [('', 'A b', True, True)], [('', None, 'doc1', None)], [('', '', None, 'par1')],
    [('en', None, True, None), ('cs', 'C', None, True)], [],
)


def case_sentences(case, rec):
    from udapi.block.write.sentences import Sentences
    from udapi.block.read.sentences import Sentences as Reader
    from udapi.core.document import Document
    doc, lines, missing = Document(), [], False
    for number, index in enumerate(case['bundles'], 1):
        bundle = doc.create_bundle()
        for zone, text, newdoc, newpar in SENTENCES[index]:
            root = bundle.create_tree(zone=zone)
            for form in ('x', ',', 'y'):
                node = root.create_child(form=form)
                if form == 'x':
                    node.misc['SpaceAfter'] = 'No'
            root.text, root.newdoc, root.newpar = text, newdoc, newpar
            lines += [''] * (number > 1) * (bool(newdoc and case['newdoc']) + bool(newpar and case['newpar']))
            missing = missing or text is None
            if text is None:
                text = '' if case['missing'] in ('empty', 'warn_empty') else 'x, y'
            lines.append(text)
    options = {k: v for k, v in (('if_missing', case['missing']), ('newdoc', case['newdoc']), ('newpar', case['newpar'])) if v is not None}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        writer = Sentences(**options)
        error = raises(writer.process_document, doc)
    if case['missing'] == 'fatal' and missing:
        require(isinstance(error, RuntimeError), 'sentences-fatal', lambda: f'{error!r}')
        return
    require(error is None, 'sentences-raised', lambda: f'{error!r}')
    equal(out.getvalue(), ''.join(line + '\n' for line in lines), 'sentences', case)
    again = Document()
    reader = Reader(filehandle=io.StringIO(out.getvalue()))
    reader.process_document(again)
    equal([tree.text for bundle in again for tree in bundle], lines, 'sentences-read-again', case)


# ---------------------------------------------------------------- writers of trees

def case_write(case, rec):
    writer = case['writer']
    forms = None if case['labels'] == 'distinct' else case['labels']
    doc, nodes = make_doc(case['heads'], forms)
    if writer == 'sdparse':
        options = {'print_upos': case.get('upos', 1), 'print_feats': case.get('feats', 0), 'always_ord': case.get('order', 0)}
        check_sdparse(doc, options)
    else:
        globals()['check_' + writer](doc)


def case_special(case, rec):
    doc, nodes = make_doc((2, 0, 2))
    node, string, attr, writer = nodes[case['place']], case['string'], case['attr'], case['writer']
    root = nodes[0]
    if attr == 'text':
        root.text = string
    elif attr == 'comment':
        root.comment = f' {string}\n {string}{string}\n'
    elif attr in ('feats', 'misc'):
        if '|' in string or '=' in string or ' ' in string:
            return
        setattr(node, attr, None)
        getattr(node, attr)['K'] = string
    else:
        if ' ' in string and (attr not in ('form', 'lemma') or writer == 'sdparse'):
            return
        if writer == 'vislcg' and attr in ('deprel',) and not string.isalnum():
            return
        setattr(node, attr, string)
    if writer == 'sdparse':
        check_sdparse(doc, {'print_upos': 1, 'print_feats': 1, 'always_ord': 0})
    else:
        globals()['check_' + writer](doc)


def case_bundles(case, rec):
    from udapi.core.document import Document
    doc = Document()
    for i, zone in enumerate(case['zones']):
        if i == 0 or i == case['split']:
            bundle = doc.create_bundle()
        if zone:
            root = bundle.create_tree(zone=zone.strip())
            trees.build_into(root, [(), (0,), (2, 0)][i])
            root.text = ['', 'a', 'ab'][i] or None
    writer = case['writer']
    if writer == 'sdparse':
        check_sdparse(doc, {'print_upos': 1, 'print_feats': 0, 'always_ord': 0})
    else:
        globals()['check_' + writer](doc)


def case_enhanced(case, rec):
    doc, nodes = make_doc(case['heads'])
    for node, dep in zip(nodes[1:], case['deps']):
        node.raw_deps = f'{dep}:e{node.ord}' if node.ord != dep else f'0:root|{dep}:self'
    check_tikz(doc, enhanced=True)


class Strict(html.parser.HTMLParser):
    """All tags have to be closed in the right order."""
    VOID = ('meta', 'br', 'hr', 'input', 'link')

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.items = [], []

    def handle_starttag(self, tag, attrs):
        self.items.append(['start', tag, dict(attrs)])
        if tag not in self.VOID:
            self.stack.append(tag)

    def handle_endtag(self, tag):
        require(self.stack and self.stack[-1] == tag, 'html-tags', f'</{tag}> closes {self.stack}')
        self.stack.pop()
        self.items.append(['end', tag])

    def handle_data(self, data):
        self.items.append(['data', data])

    def done(self):
        self.close()
        require(not self.stack, 'html-tags', f'not closed {self.stack}')
        return self.items


def parse_html(text):
    parser = Strict()
    parser.feed(text)
    return parser.done()


def check_sentenceshtml(doc):
    from udapi.block.write.sentenceshtml import SentencesHtml
    out = written(SentencesHtml, doc, title='A<B&C')
    items = parse_html(out)
    got, title = [], None
    for i, item in enumerate(items):
        if item[:2] == ['start', 'li']:
            text = ''
            for later in items[i + 1:]:
                if later == ['end', 'li']:
                    break
                require(later[0] == 'data', 'sentenceshtml-markup', f'{out!r}')
                text += later[1]
            got.append((item[2].get('id'), text))
        if item[:2] == ['start', 'title']:
            title = items[i + 1]
    equal(title, ['data', 'A<B&C'], 'sentenceshtml-title', out)
    want = [(str(root.sent_id), root.text if root.text is not None else root.compute_text()) for root in doc.trees]
    equal(got, want, 'sentenceshtml', out)


def check_treex(doc):
    from udapi.block.write.treex import Treex
    out = written(Treex, doc)
    try:
        xml = ElementTree.fromstring(out.encode())
    except ElementTree.ParseError as exc:
        require(False, 'treex-not-well-formed', f'{exc}: {out}')
    for element in xml.iter():
        element.tag = element.tag.split('}')[-1]
    ids = [element.get('id') for element in xml.iter() if element.get('id') is not None]
    equal(sorted(ids), sorted(set(ids)), 'treex-duplicate-ids', out)
    equal([c.tag for c in xml], ['head', 'meta', 'bundles'], 'treex-structure', out)
    bundles = list(xml.find('bundles'))
    equal([b.get('id') for b in bundles], [str(b.bundle_id) for b in doc], 'treex-bundles', out)
    for bundle, got_bundle in zip(doc, bundles):
        zones = list(got_bundle.find('zones'))
        equal(len(zones), len(bundle.trees), 'treex-zones', out)
        for tree, zone in zip(bundle.trees, zones):
            parts = tree.zone.split('_')
            if len(parts) == 2:
                equal((zone.get('language'), zone.get('selector')), tuple(parts), 'treex-zone', out)
            sentence = zone.find('sentence')
            equal(sentence.text if sentence is not None else None, tree.text, 'treex-sentence', out)
            compare_treex(zone.find('trees').find('a_tree'), tree, out)


def compare_treex(element, node, out):
    value = lambda tag: (element.find(tag).text or '') if element.find(tag) is not None else None
    equal(value('ord'), str(node.ord), 'treex-ord', out)
    if not node.is_root():
        for tag, attr in (('form', 'form'), ('lemma', 'lemma'), ('tag', 'upos'), ('deprel', 'deprel')):
            equal(value(tag), getattr(node, attr), f'treex-{tag}', out)
        conll = element.find('conll')
        equal(conll.find('pos').text, node.xpos if node.xpos is not None else '_', 'treex-pos', out)
        equal(conll.find('feat').text, str(node.feats), 'treex-feat', out)
    children = element.find('children')
    got = list(children) if children is not None else []
    equal(len(got), len(node.children), 'treex-children', out)
    for sub, child in zip(got, node.children):
        equal(sub.tag, 'LM', 'treex-children', out)
        compare_treex(sub, child, out)


def check_html(doc):
    from udapi.block.write.html import Html
    out = written(Html, doc, path_to_js='.')
    items = parse_html(out)
    scripts = []
    for i, item in enumerate(items):
        if item[:2] == ['start', 'script']:
            scripts.append(items[i + 1][1] if items[i + 1][0] == 'data' else '')
    equal(len(scripts), 4, 'html-scripts', out)
    script = scripts[3]
    script = script.lstrip('\n')
    require(script.startswith('data='), 'html-data', out)
    end = script.index("\n;\n$('#treex-view')")
    try:
        data = json.loads(script[5:end])
    except ValueError as exc:
        require(False, 'html-json', f'{exc}: {out}')
    equal(len(data), len(doc.bundles), 'html-bundles', out)
    all_ids = []
    for bundle, got in zip(doc, data):
        equal(list(got['zones']), [tree.zone for tree in bundle.trees], 'html-zones', out)
        desc = []
        for tree in bundle.trees:
            zone = got['zones'][tree.zone]
            equal(zone['sentence'], tree.text or '', 'html-sentence', out)
            got_nodes = zone['trees']['a']['nodes']
            nodes = [tree] + tree.descendants
            equal(len(got_nodes), len(nodes), 'html-nodes', out)
            ids = {id(node): found['id'] for node, found in zip(nodes, got_nodes)}
            all_ids += list(ids.values())
            desc += [[f'[{tree.zone}]', 'label'], [' ', 'space']]
            for node, found in zip(nodes, got_nodes):
                kids = node.children
                equal(found.get('firstson'), ids[id(kids[0])] if kids else None, 'html-firstson', out)
                equal(found['parent'], ids[id(node.parent)] if node.parent else None, 'html-parent', out)
                if node.parent is None:
                    equal(found['labels'], [f'zone={tree.zone}', f'id={tree.address()}'], 'html-labels', out)
                    continue
                siblings = node.parent.children
                index = [x is node for x in siblings].index(True)
                equal(found.get('rbrother'), ids[id(siblings[index + 1])] if index + 1 < len(siblings) else None, 'html-rbrother', out)
                equal(found['order'], node.ord, 'html-order', out)
                values = {name: getattr(node, name) for name in ('form', 'lemma', 'upos', 'xpos', 'deprel')}
                values = {name: '' if value is None else value for name, value in values.items()}
                feats, misc = (str(x) if str(x) != '_' else '' for x in (node.feats, node.misc))
                want = {'ord': node.ord, 'feats': feats, 'misc': misc, 'id': node.address(), **values}
                for name in ('feats', 'misc'):
                    if found['data'].get(name) == '_' and want[name] == '':
                        want[name] = '_'
                equal(found['data'], want, 'html-attributes', out)
                equal(found['labels'], [values['form'], '#{#bb0000}' + values['upos'], '#{#0000bb}' + values['deprel']], 'html-labels', out)
                equal(found['hint'], f"lemma={values['lemma']}\n" + want['feats'].replace('|', '\n'), 'html-hint', out)
                desc.append([values['form'], found['id']])
                if 'SpaceAfter=No' not in misc:
                    desc.append([' ', 'space'])
            desc.append(['\n', 'newline'])
        equal(got['desc'], desc, 'html-desc', out)
    equal(len(all_ids), len(set(all_ids)), 'html-duplicate-ids', out)


TEX = {r'\_': '_', r'\$': '$', r'\&': '&', r'\%': '%', r'\#': '#', r'\{': '{', r'\}': '}', r'\textasciitilde': '~', r'\textasciicircum': '^', r'\textbackslash': '\\', '$[$': '[', '$]$': ']',
       r'\textless': '<', r'\textgreater': '>', r'\textbar': '|', r'\textquotedbl': '"', '{[}': '[', '{]}': ']', '{-}{-}': '--'}


def untex(string):
    """The text typeset by a fragment of LaTeX."""
    result, i = '', 0
    while i < len(string):
        for code in sorted(TEX, key=len, reverse=True):
            if string.startswith(code, i):
                result += TEX[code]
                i += len(code)
                if code[-1].isalpha():
                    if string.startswith('{}', i):
                        i += 2
                    else:
                        require(not string[i:i + 1].isalpha() and string[i:i + 1] != ' ', 'tikz-command', string)
                break
        else:
            require(string[i] not in '\\{}$&#^_~%', 'tikz-unescaped', string)
            result += string[i]
            i += 1
    return result


def check_tikztree(doc):
    check_tikz(doc, as_tree=True)


def check_tikz(doc, as_tree=False, enhanced=False):
    from udapi.block.write.tikz import Tikz
    for attributes in ((None,) if enhanced else (None, 'form', 'form,lemma,xpos,feats,deprel')):
        out = written(Tikz, doc, as_tree=as_tree, attributes=attributes, enhanced=enhanced, comment_attribute='text_en')
        lines = out.split('\n')
        require(lines[0].startswith(r'\documentclass') and r'\begin{document}' in lines and r'\end{document}' in lines, 'tikz-preambule', out)
        body = lines[lines.index(r'\begin{document}') + 1:lines.index(r'\end{document}')]
        names = attributes.split(',') if attributes else ['form', 'upos'] + ['deprel'] * as_tree
        for root in doc.trees:
            nodes = root.descendants
            equal(body.pop(0), r'\begin{dependency}', 'tikz-lines', out)
            equal(body.pop(0), r'\begin{deptext}', 'tikz-lines', out)
            comments = []
            while body and body[0].startswith('%'):
                comments.append(body.pop(0)[1:].strip())
            text = root.text if root.text is not None else root.compute_text()
            equal(comments, [f'sent_id = {root.address()}', f'text = {text}'.strip()] + [x.strip() for x in root.comment.split('\n') if x], 'tikz-comments', out)
            for name in names:
                row = body.pop(0)
                require(row.endswith(r' \\'), 'tikz-row', out)
                cells = [untex(cell.strip()) for cell in row[:-3].split(r' \& ')] if nodes else []
                equal(cells, [tex_value(node, name) for node in nodes], f'tikz-{name}', out)
            equal(body.pop(0), r'\end{deptext}', 'tikz-lines', out)
            edges = {}
            end = body.index(r'\end{dependency}')
            rest, body = body[:end], body[end + 1:]
            equal(body.pop(0), '', 'tikz-lines', out)
            if as_tree:
                check_tikz_tree(rest, nodes, out)
                continue
            got = []
            for line in rest:
                match = re.match(r'\\(depedge|deproot)(\[edge below\])?\{(\d+)\}(?:\{(\d+)\})?\{(.*)\}$', line)
                require(match, 'tikz-lines', f'{line!r} in {out}')
                kind, below, one, two, label = match.groups()
                require((kind == 'depedge') == (two is not None), 'tikz-edge', out)
                got.append((bool(below), int(two or one), int(one) if two else 0, untex(label)))
            want = []
            for node in nodes:
                want.append((False, node.ord, node.parent.ord, 'root' if node.parent.is_root() else node.deprel))
                if enhanced:
                    want += [(True, node.ord, dep['parent'].ord, 'root' if dep['parent'].is_root() else dep['deprel']) for dep in node.deps]
            equal(got, want, 'tikz-edges', out)
        equal([x for x in body if x], [], 'tikz-lines', out)


def case_tikzoptions(case, rec):
    """Every option of write.Tikz controls its part of the output."""
    from udapi.block.write.tikz import Tikz
    doc, nodes = make_doc((2, 0))
    root = nodes[0]
    root.comment, root.text = case['comment'], 'T 1'
    for word in nodes[1:]:
        word.deps = [{'parent': word.parent, 'deprel': 'e'}]
    names = ('print_sent_id', 'print_text', 'print_preambule')
    options = {name: bool(flag) for name, flag in zip(names, case['flags']) if flag is not None}
    for name in ('as_tree', 'enhanced'):
        if case[name]:
            options[name] = True
    if case['attribute']:
        options['comment_attribute'] = case['attribute']
    out = written(Tikz, doc, **options)
    on = [flag is None or bool(flag) for flag in case['flags']]
    comments = [line[1:].strip() for line in out.split('\n') if line.startswith('%')]
    want = ['sent_id = ' + root.address()] * on[0] + ['text = T 1'] * on[1] + [line.strip() for line in case['comment'].split('\n') if line]
    equal(comments, want, 'tikz-option-comments', out)
    for part in (r'\documentclass[multi=dependency]{standalone}', r'\usepackage{tikz-dependency}', r'\begin{document}', r'\end{document}', r'\newcommand{\deptrans}'):
        equal(out.count(part), int(on[2]), 'tikz-option-preambule', out)
    styles = on[2] and bool(case['as_tree'])
    for part in (r'\tikzset{', 'deplabel/.style', 'depnode/.style', 'depguide/.style', r'\newlength{\deplevel}', r'\newlength{\depskip}'):
        equal(out.count(part), int(styles), 'tikz-option-styles', out)
    value = None
    for line in case['comment'].split('\n'):
        key, found, rest = line.strip().partition(' = ')
        if found and key == case['attribute'] and value is None:
            value = rest
    got = [untex(line[len(r'\deptrans{'):-1]) for line in out.split('\n') if line.startswith(r'\deptrans{')]
    equal(got, [] if value is None else [value], 'tikz-option-comment-attribute', out)
    equal(out.count('[edge below]'), 2 * case['enhanced'], 'tikz-option-enhanced', out)
    equal(out.count(r'\draw[depguide]'), 2 * case['as_tree'], 'tikz-option-tree', out)
    equal(out.count(r'\begin{dependency}'), 1, 'tikz-option-structure', out)


def tex_value(node, name):
    value = getattr(node, name)
    return '_' if value is None else str(value)


def check_tikz_tree(rest, nodes, out):
    depth = {}
    for node in nodes:
        depth[node.ord] = 1 if node.parent.is_root() else None
    while any(x is None for x in depth.values()):
        for node in nodes:
            if depth[node.ord] is None and depth[node.parent.ord] is not None:
                depth[node.ord] = depth[node.parent.ord] + 1
    want = []
    for node in nodes:
        want.append(rf'\node (w{node.ord}) [yshift=\depskip+{max(depth.values()) - depth[node.ord]}\deplevel,depnode] at (\wordref{{1}}{{{node.ord}}}) {{}};')
    got = rest[:len(nodes)]
    equal(got, want, 'tikz-tree-nodes', out)
    equal(len(rest), 2 * len(nodes), 'tikz-tree-lines', out)
    for node, line in zip(nodes, rest[len(nodes):]):
        start = rf'\draw[depguide] (w{node.ord})--(\wordref{{1}}{{{node.ord}}});'
        require(line.startswith(start), 'tikz-tree-guide', out)
        line = line[len(start):].strip()
        if node.parent.is_root():
            equal(line, '', 'tikz-tree-edge', out)
        else:
            match = re.match(r'\\draw\[depedge\] \(w(\d+)\)--node\[deplabel\] \{(.*)\} \(w(\d+)\);$', line)
            require(match, 'tikz-tree-edge', out)
            equal((int(match.group(1)), untex(match.group(2)), int(match.group(3))), (node.ord, node.deprel, node.parent.ord), 'tikz-tree-edge', out)


def check_sdparse(doc, options):
    from udapi.block.write.sdparse import Sdparse
    out = written(Sdparse, doc, **options)
    want = []
    escape = lambda string: string.replace('\\', '\\\\').replace('/', '\\/')
    for root in doc.trees:
        nodes = root.descendants
        forms = [node.form for node in nodes]
        name = lambda node: escape(node.form + (f'-{node.ord}' if options['always_ord'] or forms.count(node.form) > 1 else ''))
        want.append('~~~ sdparse')
        tokens = []
        for node in nodes:
            token = escape(node.form)
            feats = '[' + str(node.feats) + ']' if options['print_feats'] and str(node.feats) != '_' else ''
            if options['print_upos']:
                token += '/' + node.upos + feats
            elif feats:
                token += '/' + feats
            tokens.append(token)
        want.append(' '.join(tokens))
        want += [f'{node.deprel}({name(node.parent)}, {name(node)})' for node in nodes if node.parent is not root]
        want += ['~~~', '']
    equal(out.split('\n'), want + [''], 'sdparse')


# ---------------------------------------------------------------- VISL-cg

VISL = {'sect': '§', 'quot': '"', 'num': '#', 'semi': ';', 'equals': '=', 'lpar': '(', 'rpar': ')', 'verbar': '|'}


def unvisl(string):
    def code(match):
        require(match.group(1) in VISL, 'vislcg-code', string)
        return VISL[match.group(1)]
    require(not re.search(r'[";=()|#]', string) and not re.search(r'§(?!\w+\.)', string), 'vislcg-unescaped', string)
    return re.sub(r'§(\w+)\.', code, string)


def case_vislcg(case, rec):
    heads = case['heads']
    doc, nodes = make_doc(heads)
    root = nodes[0]
    start = 1
    for i in range(1, len(heads) + 1):
        if i == len(heads) or case['cut'][i - 1]:
            if i > start:
                words = nodes[start:i + 1]
                mwt = root.create_multiword_token(words, form=(' ' if case['spaces'] else '').join(w.form for w in words))
            start = i + 1
    check_vislcg(doc)


def check_vislcg(doc):
    from udapi.block.write.vislcg import Vislcg
    out = written(Vislcg, doc)
    lines = out.split('\n')
    for root in doc.trees:
        for token in root.token_descendants:
            match = re.match(r'"<(.*)>"$', lines.pop(0))
            require(match, 'vislcg-token', out)
            equal(unvisl(match.group(1)), token.form, 'vislcg-form', out)
            for i, word in enumerate(token.words):
                line = lines.pop(0)
                indent = '\t' if i == 0 else '\t\t'
                require(line.startswith(indent + '"'), 'vislcg-indent', out)
                match = re.match(r'\t+"([^"]*)" (\S+) (?:(.+) )?@(\S+) #(\d+)->(\d+)$', line)
                require(match, 'vislcg-word', f'{line!r} in {out}')
                lemma, xpos, feats, deprel, order, head = match.groups()
                equal((unvisl(lemma), unvisl(xpos)), (word.lemma, word.xpos), 'vislcg-attributes', out)
                equal([unvisl(x) for x in (feats or '').split()], [x for x in str(word.feats).split('|') if x != '_'], 'vislcg-feats', out)
                equal((deprel, int(order), int(head)), (word.deprel, word.ord, word.parent.ord), 'vislcg-tree', out)
        equal(lines.pop(0), '', 'vislcg-end', out)
    # reading back
    from udapi.block.read.vislcg import Vislcg as Reader
    from udapi.core.document import Document
    for twice in (1, 2):
        again = Document()
        reader = Reader(filehandle=io.StringIO('# first comment\n' + out * twice))
        reader.process_document(again)
        roots = list(again.trees)
        originals = list(doc.trees) * twice
        equal(len(roots), len(originals), 'vislcg-read-trees', out)
        equal(roots[0].comment, ' first comment\n', 'vislcg-read-comment', out)
        for root, original in zip(roots, originals):
            trees.check_tree(root)
            tokens, want_tokens = [], []
            for token in root.token_descendants:
                tokens.append((token.form, [word.ord for word in token.words]))
            for token in original.token_descendants:
                want_tokens.append((token.form, [word.ord for word in token.words]))
            equal(tokens, want_tokens, 'vislcg-read-tokens', out)
            got = [(w.lemma, w.xpos, str(w.feats), w.deprel, w.parent.ord) for w in root.descendants]
            want = [(w.lemma, w.xpos, str(w.feats), w.deprel, w.parent.ord) for w in original.descendants]
            equal(got, want, 'vislcg-read', out)
            # forms of words in multi-word tokens
            forms = []
            for token in original.token_descendants:
                words, parts = token.words, token.form.split()
                if len(words) == 1:
                    forms.append(token.form)
                elif len(parts) == len(words):
                    forms += parts
                else:
                    forms += [token.form] + ['_'] * (len(words) - 1)
            equal([w.form for w in root.descendants], forms, 'vislcg-read-forms', out)


# ---------------------------------------------------------------- CoNLL variants

def base_row(i, head):
    return {'ord': str(i), 'form': f'f{i}', 'lemma': f'l{i}', 'upos': f'U{i}', 'xpos': f'x{i}', 'feats': f'A={i}', 'head': str(head), 'deprel': f'd{i}',
            'deps': f'{head}:e{i}', 'misc': f'M={i}'}


DEFAULTS = {'form': '_', 'lemma': '_', 'upos': None, 'xpos': None, 'feats': '_', 'deprel': None, 'deps': '_', 'misc': '_'}


def observed(node):
    values = {name: getattr(node, name) for name in ('form', 'lemma', 'upos', 'xpos', 'deprel')}
    values.update(feats=str(node.feats), misc=str(node.misc), deps=node.raw_deps)
    return {name: '_' if value is None else value for name, value in values.items()}


def expected(row, columns):
    return {name: row.get(name, '_') if name in columns else '_' for name in DEFAULTS}


def case_conll(case, rec):
    from udapi.block.read.conll import Conll
    from udapi.core.document import Document
    heads, columns, extra = case['heads'], case['columns'].split(','), case.get('extra', '')
    n = len(heads)
    separator = {'tab': '\t', 'space': ' ', 'doublespace': '  '}[case['separator']]
    rows = [base_row(i, head) for i, head in enumerate(heads, 1)]
    for row in rows:
        row['deps'] = '0:e'
    if 'ord' not in columns and extra in ('mwt', 'empty', 'both'):
        return
    if extra == 'values':
        for row, form in zip(rows, ('1-2', '3.14', '#x', '_')):
            row.update(form=form, lemma=form, xpos='-', misc='_', feats='_')
        if 'form' == columns[0] and n > 2:
            return
    if extra == 'nohead':
        rows[n - 1]['head'] = '_'
    lines = []
    mwts, empties = [], []
    for row in rows:
        if extra in ('mwt', 'both') and row['ord'] == '1' and n > 1:
            mwt = {'ord': '1-2', 'form': 'm', 'misc': 'N=1|SpaceAfter=No'}
            mwts.append(mwt)
            lines.append(separator.join(mwt.get(name, '_') for name in columns))
        fields = [row.get(name, 'ignored') for name in columns]
        if extra == 'short' and row['ord'] == str(n):
            fields = fields[:-1]
        lines.append(separator.join(fields))
        if extra in ('empty', 'both'):
            empty = {'ord': row['ord'] + '.1', 'form': 'e' + row['ord'], 'lemma': 'k', 'upos': 'E', 'xpos': 'y', 'feats': 'B=2', 'deps': '1:e', 'misc': 'O=2', 'head': '_', 'deprel': '_'}
            empties.append(empty)
            lines.append(separator.join(empty.get(name, 'ignored') for name in columns))
    text = '# sent_id = x\n# c\n' + '\n'.join(lines) + '\n\n'
    tree_ok = all(0 <= head <= n for head in heads)
    acyclic = tree_ok and trees.is_acyclic(heads)
    for strict in (1, 0):
        doc = Document()
        reader = Conll(separator=case['separator'], attributes=case['columns'], filehandle=io.StringIO(text), strict=strict, fix_cycles=case.get('fix', 0), empty_parent='ignore')
        failed = raises(reader.process_document, doc)
        bad_short = extra == 'short' or (extra == 'nohead' and 'head' in columns)
        if not tree_ok or (not acyclic and not case.get('fix')) or (strict and bad_short) or (extra == 'short' and columns[-1] == 'ord'):
            require(failed is not None, 'conll-error-expected', text)
            require(isinstance(failed, (ValueError, RuntimeError)), 'conll-error-type', f'{failed!r} {text}')
            continue
        require(failed is None, 'conll-error', f'{failed!r} {text}')
        roots = list(doc.trees)
        equal(len(roots), 1, 'conll-trees', text)
        root = roots[0]
        trees.check_tree(root)
        equal((root.sent_id, root.comment.replace('$SENT_ID\n', '')), ('x', ' c\n'), 'conll-comments', text)
        words = root.descendants
        equal(len(words), n, 'conll-words', text)
        for i, (word, row) in enumerate(zip(words, rows), 1):
            if extra == 'short' and i == n:
                row = {name: value for name, value in row.items() if name != columns[-1]}
            equal(observed(word), expected(row, columns), 'conll-attributes', text)
            head = row.get('head', '0')
            if acyclic:
                equal(word.parent.ord, 0 if head == '_' else int(head), 'conll-head', text)
        if not acyclic:
            for word, head in zip(words, heads):
                require(word.parent.ord in (0, head), 'conll-fixed-cycle', text)
        equal([(m.form, str(m.misc), m.ord_range) for m in root.multiword_tokens],
              [(m['form'] if 'form' in columns else '_', m['misc'] if 'misc' in columns else '_', m['ord']) for m in mwts], 'conll-mwt', text)
        equal([str(e.ord) for e in root.empty_nodes], [e['ord'] for e in empties], 'conll-empty', text)
        for node, row in zip(root.empty_nodes, empties):
            row = {**row, 'deprel': '_'}
            equal(observed(node), expected(row, columns), 'conll-empty-attributes', text)
            require(node.root is root, 'conll-empty-root', text)


def plus_text(columns, heads, extra, header=True, start=''):
    columns = columns.split()
    lines = ['# global.columns = ' + ' '.join(columns)] if header else []
    lines.append('# c' + start)
    rows = []
    for i, head in enumerate(heads, 1):
        row = base_row(i, head)
        row = {'id' if name == 'ord' else name: value for name, value in row.items()}
        row.update({'parseme:mwe': str(i), 'begin': f'b{i}', 'end': f'n{i}', 'coref': f'c{i}', 'deps': '0:e'})
        if i == 1 and extra in ('mwt', 'both') and len(heads) > 1:
            lines.append('\t'.join({'ID': '1-2', 'FORM': 'm', 'MISC': 'N=1', 'PARSEME:MWE': '*'}.get(name, '_') for name in columns))
        lines.append('\t'.join(row[name.lower()] for name in columns))
        rows.append(row)
        if extra in ('empty', 'both'):
            lines.append('\t'.join({'ID': f'{i}.1', 'FORM': 'e', 'LEMMA': 'k', 'MISC': 'O=1', 'DEPS': '1:x'}.get(name, '_') for name in columns))
    return '\n'.join(lines) + '\n\n', rows


def check_plus(root, columns, rows, extra, text):
    columns = columns.split()
    trees.check_tree(root)
    equal(len(root.descendants), len(rows), 'plus-words', text)
    standard = [name.lower() for name in columns]
    for word, row in zip(root.descendants, rows):
        misc = [row['misc']] if 'misc' in standard else []
        misc += [f'{name.capitalize()}={row[name]}' for name in ('parseme:mwe', 'begin', 'end', 'coref') if name in standard]
        want = {name: row[name] if name in standard else '_' for name in ('form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'deps')}
        got = observed(word)
        got_misc = got.pop('misc')
        equal(got, want, 'plus-attributes', text)
        equal(sorted(got_misc.split('|')), sorted(misc or ['_']), 'plus-misc', text)
        equal(word.parent.ord, int(row['head']), 'plus-head', text)
    has_mwt = extra in ('mwt', 'both') and len(rows) > 1
    got = [(m.form, m.ord_range) for m in root.multiword_tokens]
    equal(got, [('m', '1-2')] if has_mwt else [], 'plus-mwt', text)
    for mwt in root.multiword_tokens:
        want = ['N=1'] if 'misc' in standard else []
        got = [x for x in str(mwt.misc).split('|') if x not in ('_', 'Parseme:mwe=*')]
        equal(got, want, 'plus-mwt-misc', text)
    equal([(e.form, str(e.ord)) for e in root.empty_nodes], [('e', f'{i}.1') for i in range(1, len(rows) + 1)] if extra in ('empty', 'both') else [], 'plus-empty', text)
    for empty in root.empty_nodes:
        equal((empty.lemma, str(empty.misc), empty.raw_deps), tuple(value if name in standard else '_' for name, value in (('lemma', 'k'), ('misc', 'O=1'), ('deps', '1:x'))), 'plus-empty-attributes', text)


def case_plus(case, rec):
    from udapi.block.read.conllup import Conllup
    from udapi.core.document import Document
    columns, extra = case['columns'], case['extra']
    if extra in ('empty', 'both') and 'MISC' not in columns:
        return
    if columns.split()[0] != 'ID' and extra:
        return
    one, rows1 = plus_text(columns, case['heads'], extra, header=not case['explicit'])
    two, rows2 = plus_text(columns, (0,), '', header=False)
    kwargs = {'attributes': ','.join('ord' if x == 'ID' else x.lower() for x in columns.split())} if case['explicit'] else {}
    doc = Document()
    Conllup(filehandle=io.StringIO(one + two), save_global_columns=bool(case['save']), **kwargs).process_document(doc)
    roots = list(doc.trees)
    equal(len(roots), 2, 'plus-trees', one)
    check_plus(roots[0], columns, rows1, extra, one)
    check_plus(roots[1], columns, rows2, '', one)
    header = ' global.columns = ' + columns + '\n' if case['save'] and not case['explicit'] else ''
    equal([root.comment for root in roots], [header + ' c\n', ' c\n'], 'plus-comments', one)


def case_plusfiles(case, rec):
    from udapi.block.read.conllup import Conllup
    from udapi.core.document import Document
    with workdir():
        texts, rows = [], []
        for i, layout in enumerate(case['layouts']):
            text, row = plus_text(PLUS_LAYOUTS[layout], (0, 1), '', start=str(i))
            texts.append(text)
            rows.append(row)
            with open(f'f{i}.conllup', 'w', encoding='utf-8') as handle:
                handle.write(text)
        reader = Conllup(files='f0.conllup f1.conllup', merge=bool(case['merge']))
        roots = []
        for _ in range(3):
            doc = Document()
            reader.process_document(doc)
            roots += list(doc.trees)
            if reader.finished:
                break
        equal(len(roots), 2, 'plusfiles-trees', str(texts))
        for root, row, layout, i in zip(roots, rows, case['layouts'], '01'):
            check_plus(root, PLUS_LAYOUTS[layout], row, '', str(texts))
            equal(root.comment, f' c{i}\n', 'plusfiles-comments', str(texts))


def plus_reader(columns, rows, strict):
    from udapi.block.read.conllup import Conllup
    from udapi.core.document import Document
    text = '# global.columns = ' + ' '.join(columns) + '\n' + ''.join('\t'.join(row) + '\n' for row in rows) + '\n'
    doc = Document()
    reader = Conllup(filehandle=io.StringIO(text), **({} if strict is None else {'strict': bool(strict)}))
    return text, doc, raises(reader.process_document, doc)


def case_plusvalues(case, rec):
    """Underscores mean no value (but the form '_'), unknown heads and missing columns."""
    columns = case['columns'].split()
    strict = bool(case['strict'])
    words, rows = [], []
    for i in (1, 2):
        row = {'id' if name == 'ord' else name: value for name, value in base_row(i, 0).items()}
        row.update({'parseme:mwe': str(i), 'begin': f'b{i}', 'end': f'n{i}', 'coref': f'c{i}', 'deps': '0:e', '_': 'ignored'})
        if i == 2:
            row['head'] = case['head']
            for name in case['empty']:
                row[name.lower()] = '_'
            for name in columns[len(columns) - case['short']:]:
                row[name.lower()] = '_'
        words.append(row)
        rows.append([row[name.lower()] for name in columns])
    if case['short']:
        rows[1] = rows[1][:-case['short']]
    if words[1]['id'] == '_' and 'ID' in columns:
        return
    text, doc, error = plus_reader(columns, rows, case['strict'])
    if strict and case['short']:
        require(isinstance(error, RuntimeError), 'plusvalues-short-accepted', lambda: f'{text} {error!r}')
        return
    if strict and words[1]['head'] == '_':
        require(isinstance(error, ValueError), 'plusvalues-head-accepted', lambda: f'{text} {error!r}')
        return
    require(error is None, 'plusvalues-raised', lambda: f'{text} {error!r}')
    root, = doc.trees
    trees.check_tree(root)
    equal(len(root.descendants), 2, 'plusvalues-words', text)
    standard = [name.lower() for name in columns]
    for word, row in zip(root.descendants, words):
        got = observed(word)
        misc = [row['misc']] if 'misc' in standard and row['misc'] != '_' else []
        misc += [f'{name.capitalize()}={row[name]}' for name in ('parseme:mwe', 'begin', 'end', 'coref') if name in standard and row[name] != '_']
        equal(sorted(got.pop('misc').split('|')), sorted(misc or ['_']), 'plusvalues-misc', text)
        equal(got, {name: row[name] if name in standard else '_' for name in got}, 'plusvalues', text)
        equal(word.parent.ord, int(row['head']) if row['head'].isdigit() else 0, 'plusvalues-head', text)


def case_plusempty(case, rec):
    """One word with MISC Empty=Yes stands for an empty sentence."""
    columns = case['columns'].split()
    rows = []
    for i in range(1, case['words'] + 1):
        row = {'ID': str(i), 'HEAD': '0', 'FORM': 'x', 'MISC': case['mark'] if i == 1 else '_'}
        rows.append([row.get(name, '_') for name in columns])
    text, doc, error = plus_reader(columns, rows, None)
    require(error is None, 'plusempty-raised', lambda: f'{text} {error!r}')
    root, = doc.trees
    trees.check_tree(root)
    want = 0 if case['words'] == 1 and case['mark'] == 'Empty=Yes' else case['words']
    equal((len(root.descendants), len(root.children), len(root.descendants(add_self=True))), (want, want, want + 1), 'plusempty', text)


# ---------------------------------------------------------------- Corpus of Czech Verse

def case_ccv(case, rec):
    with workdir():
        run_ccv(case)


def run_ccv(case):
    from udapi.block.read.ccv import Ccv
    from udapi.core.document import Document
    data, want = [], []
    for poem in range(case['poems']):
        body = []
        for number, count in enumerate(case['stanzas']):
            stanza = []
            for verse in range(count):
                punct = {str(i): x for i, x in enumerate(case['puncts']) if x}
                words = [{'token': f'w{i}', 'lemma': f'l{i}', 'morph': f'm{i}', 'xsampa': f's{i}', 'phoebe': f'p{i}'} for i in (1, 2)]
                tokens = []
                for i, x in enumerate(case['puncts']):
                    tokens += ([(f'w{i}', f'l{i}', f'm{i}', [('phoebe', f'p{i}'), ('xsampa', f's{i}')])] if i else []) + [(c, c, None, []) for c in x]
                text = case['puncts'][0] + 'w1' + case['puncts'][1] + ' w2' + case['puncts'][2]
                stanza.append({'text': text, 'rhyme': verse, 'metre': number, 'stress': poem, 'words': words, 'punct': punct})
                want.append((text, tokens if case['tokenize'] else [], {'rhyme': verse, 'metre': number, 'stress': poem}, verse == 0, f'p{poem}' if verse == number == 0 else None))
            body.append(stanza)
        data.append({'poem_id': f'p{poem}', 'p_author': 'a', 'b_author': 'b', 'biblio': 'c', 'body': body})
    text = json.dumps(data)
    for kwargs in ({}, {'split_docs': True}, {'bundles_per_doc': 2}):
        with open('data.json', 'w', encoding='utf-8') as handle:
            handle.write(text)
        reader = Ccv(files='data.json', tokenize=bool(case['tokenize']), **kwargs)
        got, sizes = [], []
        for _ in range(20):
            doc = Document()
            reader.process_document(doc)
            sizes.append(len(doc.bundles))
            for root in doc.trees:
                trees.check_tree(root)
                tokens = [(w.form, w.lemma, w.xpos if w.xpos != '_' else None, sorted((k, v) for k, v in w.misc.items() if k != 'SpaceAfter')) for w in root.descendants]
                numbers = {k: root.json[k] for k in ('rhyme', 'metre', 'stress')}
                got.append((root.text, tokens, numbers, bool(root.newpar), root.newdoc or None))
                equal({k: v for k, v in root.json.items() if k not in numbers}, {'p_author': 'a', 'b_author': 'b', 'biblio': 'c'} if root.newdoc else {}, 'ccv-authors', text)
                if case['tokenize']:
                    equal(root.compute_text(), root.text, 'ccv-spaces', text)
            if reader.finished:
                break
        require(reader.finished, 'ccv-not-finished', f'{kwargs} {text}')
        equal(got, want, 'ccv', f'{kwargs} {text}')
        per_poem = sum(case['stanzas'])
        if not kwargs:
            equal([x for x in sizes if x], [per_poem * case['poems']], 'ccv-documents', text)
        elif 'split_docs' in kwargs:
            equal([x for x in sizes if x], [per_poem] * case['poems'], 'ccv-documents-split', text)
        else:
            equal([x for x in sizes if x], [2] * (len(want) // 2) + [1] * (len(want) % 2), 'ccv-documents-bundles', text)
