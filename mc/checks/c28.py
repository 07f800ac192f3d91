"""C28: other formats of coreference: write.CorefHtml, read/write.OldCorefUD, read.Conll2012."""
import contextlib
import gzip
import io
import itertools
import json
import re

from mc.core import require, equal, workdir, raises
from mc import trees
from mc.checks.c27 import Strict

TITLE = ('All sets of up to 3 mentions over sentences with empty nodes x entities x heads: write.CorefHtml decoded by an independent HTML parser, '
         'write.OldCorefUD read back by read.OldCorefUD, and all CoNLL-2012 files with the same mentions read by read.Conll2012, vs. the plain mentions')
ASSUMPTIONS = ['entity ids are distinct also after replacing characters not allowed in DOM ids', 'CoNLL-2012: mentions of one entity do not cross', 'OldCorefUD: bridging relations are not empty']
MAIN = re.compile(r'<div class="doc" id="doc\d+">\n.*?\n</div>', re.S)


def BOUNDS(tier):
    big = tier != 'quick'
    return {'nodes_pairs': 5 if big else 4, 'nodes_triples': 4 if big else 3, 'nodes_triples_continuous': 5 if big else 4, 'words_conll2012': 5 if big else 4}


def subsets(n):
    return [[i for i in range(n) if mask >> i & 1] for mask in range(1, 1 << n)]


def intervals(n):
    return [list(range(a, b)) for a in range(n) for b in range(a + 1, n + 1)]


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(1, bounds['nodes_pairs'] + 1):
        for one in subsets(n):
            result.append({'kind': 'pairs', 'n': n, 'one': one})
    for n in range(2, bounds['nodes_triples'] + 1):
        for one in subsets(n):
            result.append({'kind': 'triples', 'n': n, 'one': one})
    n = bounds['nodes_triples_continuous']
    for one in intervals(n):
        result.append({'kind': 'intervals', 'n': n, 'one': one})
    result += [{'kind': 'many', 'width': width} for width in (1, 2, 3, 4)]
    result += [{'kind': 'strings'}, {'kind': 'documents'}, {'kind': 'attributes'}, {'kind': 'hyphens'}, {'kind': 'oldlinks'}, {'kind': 'conll2012layout'}]
    for n in range(1, bounds['words_conll2012'] + 1):
        for one in intervals(n):
            result.append({'kind': 'conll2012', 'n': n, 'one': one})
    return result[::-1]


STRINGS = ['<', '>', '&', '"', "'", '</p>', '&lt;', '<b>', 'a"b', '</span>', 'x', '</script>', '\\']


def run_shard(shard, rec):
    kind, n, one = shard['kind'], shard.get('n'), shard.get('one')
    if kind == 'pairs':
        rec.run({'kind': 'html', 'n': n, 'mentions': [['e1', one, one[0]]], 'whole': 1})
        for head in one:
            rec.run({'kind': 'old', 'n': n, 'mentions': [['e1', one, head]]})
        for two in subsets(n):
            for eid in ('e1', 'e2'):
                if eid == 'e1' and one == two:
                    continue
                mentions = [['e1', one, one[0]], [eid, two, two[-1]]]
                for rtl in (0, 1):
                    rec.run({'kind': 'html', 'n': n, 'mentions': mentions, 'rtl': rtl, 'whole': int(eid == 'e1' and not rtl)})
                for heads in itertools.product(one, two):
                    rec.run({'kind': 'old', 'n': n, 'mentions': [['e1', one, heads[0]], [eid, two, heads[1]]]})
    elif kind in ('triples', 'intervals'):
        for two, three in itertools.combinations((intervals if kind == 'intervals' else subsets)(n), 2):
            for eids in (('e1', 'e2', 'e3'), ('e1', 'e2', 'e1')):
                if (eids[2] == 'e1' and one == three) or one == two:
                    continue
                mentions = [[eids[0], one, one[0]], [eids[1], two, two[-1]], [eids[2], three, three[0]]]
                for rtl in (0, 1):
                    rec.run({'kind': 'html', 'n': n, 'mentions': mentions, 'rtl': rtl})
                rec.run({'kind': 'old', 'n': n, 'mentions': mentions})
                rec.run({'kind': 'old', 'n': n, 'mentions': mentions[::-1]})
    elif kind == 'many':
        # periodic sequences of mentions in a sentence of 12 nodes
        width, n = shard['width'], 12
        for step, entities, gap, most in itertools.product((1, 2, 3), (1, 2, 3, 12), (0, 1), (4, 12)):
            starts = [i * step for i in range(most) if i * step < n]
            spans = [[k for k in range(i, min(n, i + width + gap)) if not gap or k != i + 1 or width == 1] for i in starts]
            for single in (None, 0, 5):
                mentions = [[f'e{i % entities + 1}', span, span[-1] if i % 2 else span[0]] for i, span in enumerate(spans)]
                if single is not None:
                    mentions.append(['e12', list(range(single, n)), single])
                if len({(e, tuple(s)) for e, s, _ in mentions}) < len(mentions):
                    continue
                for rtl in (0, 1):
                    rec.run({'kind': 'html', 'n': n, 'mentions': mentions, 'rtl': rtl, 'whole': 1})
                rec.run({'kind': 'old', 'n': n, 'mentions': mentions})
                crossed = any(a[0] == b[0] and a[1][0] < b[1][0] <= a[1][-1] < b[1][-1] for a in mentions for b in mentions)
                if not gap and not crossed:
                    rec.run({'kind': 'conll2012', 'n': n, 'mentions': [[e[1:], s] for e, s, _ in mentions]})
    elif kind == 'strings':
        for string in STRINGS:
            for place in range(4):
                for where in ('form', 'lemma', 'other', 'newdoc', 'text', 'etype'):
                    for rtl in (0, 1):
                        rec.run({'kind': 'html', 'n': 4, 'mentions': [['e1', [0, 1], 0], ['e2', [1, 2], 2]], 'string': string, 'place': place, 'where': where, 'rtl': rtl, 'whole': 1})
    elif kind == 'documents':
        for newdocs in itertools.product((0, 1), repeat=3):
            for newpars in itertools.product((0, 1), repeat=3):
                for options in ({}, {'show_trees': False}, {'colors': 0}, {'colors': 2, 'docs_dir': 'x/y'}, {'show_eid': True, 'show_etype': True, 'path_to_js': '.'}, {'rtl': 1, 'path': 'out/*.html'}, {'show_trees': False, 'path_to_js': 'lib'}):
                    rec.run({'kind': 'documents', 'newdocs': newdocs, 'newpars': newpars, 'options': options})
        for trees_count in (0, 1):
            for entities in (0, 1):
                rec.run({'kind': 'nothing', 'trees': trees_count, 'entities': entities})
        for eids in itertools.product(('1', '12b', 'a.b', 'e:1', '_'), repeat=2):
            for upos in ('NOUN', 'ADJ', 'OTHER', None):
                if eids[0] != eids[1]:
                    rec.run({'kind': 'html', 'n': 4, 'mentions': [[eids[0], [0, 1], 0], [eids[1], [1, 2], 2]], 'string': upos, 'place': 2, 'where': 'upos', 'whole': 1})
    elif kind == 'attributes':
        rec.run({'kind': 'old', 'n': 3, 'mentions': []})
        for etypes in itertools.product((None, 'person'), repeat=2):
            for other in itertools.product(('', 'a:1', 'a:1,b:x%2Dy'), repeat=2):
                for bridging in itertools.product(((), (('e2', 'part'),), (('e3', 'x'), ('e2', 'part')), (('e2', 'x'), ('e5', 'y'), ('e3', 'x'), ('e4', 'z'))), repeat=2):
                    for split in ([], ['e2', 'e3'], ['e3', 'e2'], ['e2', 'e3', 'e4', 'e5'], ['e5', 'e2', 'e4']):
                        rec.run({'kind': 'attributes', 'etypes': etypes, 'other': other, 'bridging': bridging, 'split': split})
    elif kind == 'oldlinks':
        for eids in (('e1', 'e2', 'e3'), ('e1', 'e2', 'e1')):
            for split in itertools.product(('', 'e1,e2', 'e2+e3', 'e3,e1', 'e1+e9', 'e3+e2+e1'), repeat=3):
                for strict in (True, False):
                    rec.run({'kind': kind, 'eids': eids, 'split': split, 'bridging': ('', '', ''), 'strict': strict})
            for bridging in itertools.product(('', 'e1:x', 'e3:y', 'e2:x,e3:z', 'e9:x'), repeat=3):
                for strict in (True, False):
                    rec.run({'kind': kind, 'eids': eids, 'split': ('', '', ''), 'bridging': bridging, 'strict': strict})
    elif kind == 'conll2012layout':
        columns = ('ord', 'form', 'lemma', 'upos', '_', 'coref')
        for layout in itertools.permutations(columns):
            rec.run({'kind': kind, 'layout': layout, 'missing': 0, 'strict': True, 'name': 'z'})
        for name in ('z', '/home/x/y-z/w', 'home/a', '/home/w.txt.xml', '(a); part 1', 'x.txt'):
            rec.run({'kind': kind, 'layout': columns, 'missing': 0, 'strict': True, 'name': name})
        for missing in (1, 2, 3):
            for strict in (True, False):
                rec.run({'kind': kind, 'layout': columns, 'missing': missing, 'strict': strict, 'name': 'z'})
    elif kind == 'hyphens':
        ids = ('a-1', 'a1', 'a-12', 'a12', '-a1', 'b')
        for eids in itertools.permutations(ids, 3):
            for replacement in ('', '_'):
                for repeat in (0, 1):
                    rec.run({'kind': kind, 'eids': eids, 'replacement': replacement, 'repeat': repeat})
    else:
        rec.run({'kind': kind, 'n': n, 'mentions': [['1', one]]})
        for two in intervals(n):
            for eid in '12':
                if eid == '1' and (one == two or crossing(one, two)):
                    continue
                rec.run({'kind': kind, 'n': n, 'mentions': [['1', one], [eid, two]]})
                for three in intervals(n):
                    for eid3 in '123':
                        mentions = [['1', one], [eid, two], [eid3, three]]
                        if any(a[0] == b[0] and (a[1] == b[1] or crossing(a[1], b[1])) for a, b in itertools.combinations(mentions, 2)):
                            continue
                        rec.run({'kind': kind, 'n': n, 'mentions': mentions})


def crossing(one, two):
    common = set(one) & set(two)
    return bool(common) and not (set(one) <= set(two) or set(two) <= set(one))


def run_case(case, rec):
    rec.state(str(case))
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()


def make(n, mentions, forms='abcdefghijklm', doc=None):
    """A sentence whose second node (if any) is empty; mentions = [eid, positions, head position]."""
    from udapi.core.document import Document
    doc = doc or Document()
    root = doc.create_bundle().create_tree()
    nodes = []
    for i in range(n):
        if i == 1:
            node = nodes[0].create_empty_child('dep', after=True)
            node.form = forms[i]
        else:
            node = root.create_child(form=forms[i], lemma='l' + forms[i], upos='NOUN')
        nodes.append(node)
    if n > 2:
        nodes[0].misc['SpaceAfter'] = 'No'
    result = add(doc, nodes, mentions)
    return doc, root, nodes, result


def add(doc, nodes, mentions):
    result = []
    for eid, positions, head in mentions:
        entity = doc.eid_to_entity.get(eid) or doc.create_coref_entity(eid, etype={'e1': 'person', 'e2': 'event'}.get(eid))
        result.append(entity.create_mention(words=[nodes[i] for i in positions], head=nodes[head]))
    return result


def by_word_order(mentions):
    return sorted(mentions, key=lambda m: (m.words[0].root.bundle.number, [float(str(w.ord)) for w in m.words]))


# ---------------------------------------------------------------- write.CorefHtml

def write_html(doc, **options):
    from udapi.block.write.corefhtml import CorefHtml
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        block = CorefHtml(**options)
        block.before_process_document(doc)
        block.process_document(doc)
        block.after_process_document(doc)
    return out.getvalue()


def decode(text):
    """Sentences as lists of (character, markup), and all the spans of mentions."""
    parser = Strict()
    parser.VOID = Strict.VOID + ('input',)
    parser.feed(text)
    items = parser.done()
    sentences, stack, spans = [], [], []
    for item in items:
        if item[0] == 'start':
            if item[1] in Strict.VOID:
                continue
            stack.append((item[1], item[2]))
            classes = (item[2].get('class') or '').split()
            if item[1] == 'p' and 'sentence' in classes:
                sentences.append([])
                first = True
            if 'm' in classes:
                spans.append(item[2])
        elif item[0] == 'end':
            stack.pop()
        elif any(tag == 'p' for tag, _ in stack) and not any('labels' in (attrs.get('class') or '').split() for _, attrs in stack):
            markup = [(tag, (attrs.get('class') or '').split()) for tag, attrs in stack]
            data = item[1][1:] if first and item[1][0] == '\n' else item[1]
            first = False
            sentences[-1] += [(char, markup) for char in data]
    return sentences, spans, items


def dom(eid):
    """An entity id as it is used for ids and classes, which may not start with a digit."""
    return ('n' if eid[0].isdecimal() else '') + re.sub(r'[^\w-]', '_', eid)


def mention_ids(doc):
    result = {}
    for entity in doc.coref_entities:
        for i, mention in enumerate(entity.mentions, 1):
            result[f'{dom(entity.eid)}e{i}'] = mention
    return result


def check_sentences(text, roots, doc, options=()):
    sentences, spans, items = decode(text)
    equal(len(sentences), len(roots), 'html-sentences', text)
    ids = mention_ids(doc)
    for chars, root in zip(sentences, roots):
        nodes = root.descendants_and_empty
        want = ''.join(node.form + ('' if node.no_space_after else ' ') for node in nodes)
        equal(''.join(c for c, _ in chars).rstrip(), want.rstrip(), 'html-text', text)
        pos = 0
        for node in nodes:
            covering = sorted(key for key, mention in ids.items() if any(w is node for w in mention.words))
            is_head = any(mention.head is node for mention in ids.values())
            for _, markup in chars[pos:pos + len(node.form)]:
                found = sorted(c for tag, classes in markup if 'm' in classes for c in classes if c in ids)
                equal(found, covering, 'html-mentions', f'{node.form} in {text}')
                equal(sum('norm' in classes for _, classes in markup), 0 if covering else 1, 'html-norm', f'{node.form} in {text}')
                equal(('b', ['head']) in markup, is_head, 'html-head', f'{node.form} in {text}')
                equal(('i', ['empty']) in markup, node.is_empty(), 'html-empty', f'{node.form} in {text}')
            pos += len(node.form) + (0 if node.no_space_after else 1)
    shown = {id(root) for root in roots}
    options = dict(options)
    rtl, colors = options.get('rtl'), options.get('colors', 7)
    colors_used, parts_seen = {}, set()
    for attrs in spans:
        classes = attrs['class'].split()
        found = [ids[c] for c in classes if c in ids]
        equal(len(found), 1, 'html-mention-id', text)
        mention = found[0]
        require(dom(mention.entity.eid) in classes and (mention.entity.etype or 'other').split()[0] in classes, 'html-classes', f'{classes}: {text}')
        equal('singleton' in classes, len(mention.entity.mentions) == 1, 'html-singleton', text)
        title = attrs['title'].split('\n')
        require(f'head={mention.head.form}' in title and any(line.startswith('eid=' + mention.entity.eid) for line in title), 'html-title', f'{title}: {text}')
        entity = mention.entity
        require(f'etype={entity.etype}' in title and f'head-upos={mention.head.upos}' in title, 'html-title', f'{title}: {text}')
        equal([c for c in classes if c in ('OTHER', mention.head.upos)], [mention.head.upos if mention.head.upos in ('NOUN', 'PRON', 'PROPN', 'DET', 'VERB') else 'OTHER'], 'html-upos', text)
        # a later part of a mention cut by a crossing one is marked
        part = (found[0].entity.eid, id(mention), title[0])
        equal('crossing' in classes, part in parts_seen, 'html-crossing', text)
        equal('crossing' in title, part in parts_seen, 'html-crossing', text)
        parts_seen.add(part)
        first_part = '[' not in title[0] or '[1/' in title[0]
        every = mention.head.root.descendants_and_empty
        runs = []
        for word in every:
            if any(w is word for w in mention.words):
                if runs and before is runs[-1][-1]:
                    runs[-1].append(word)
                else:
                    runs.append([word])
            before = word
        number = re.search(r'\[(\d+)/(\d+)\]$', title[0])
        require(not number or int(number[2]) == len(runs), 'html-parts', text)
        equal('empty' in classes, all(w.is_empty() for w in runs[int(number[1]) - 1 if number else 0]), 'html-empty-span', text)
        equal(attrs.get('id'), dom(entity.eid) if mention is entity.mentions[0] and first_part else None, 'html-id', text)
        equal(attrs.get('dir'), 'ltr' if rtl else None, 'html-direction', text)
        numbers = [c for c in classes if re.fullmatch(r'c\d+', c)]
        equal(len(numbers), 1 if colors else 0, 'html-color', text)
        if colors:
            require(int(numbers[0][1:]) < colors and colors_used.setdefault(entity.eid, numbers[0]) == numbers[0], 'html-color', text)
        require(not str(mention.other) or str(mention.other) in title, 'html-title-other', f'{title}: {text}')
    for key, mention in ids.items():
        if id(mention.head.root) in shown:
            parts = {attrs['title'].split('\n')[0] for attrs in spans if key in attrs['class'].split()}
            runs = len(mention._subspans()) if hasattr(mention, '_subspans') else len(parts)
            equal(len(parts), runs, 'html-parts', text)
    for item in items:
        if item[0] == 'start' and item[2].get('class') == 'sentence':
            equal(item[2].get('dir'), 'rtl' if rtl else None, 'html-direction', text)
    equal(sum(item[0] == 'start' and item[1] == 'span' and item[2].get('dir') == 'rtl' for item in items), len(spans) if rtl else 0, 'html-direction', text)
    for item in items:
        if item[0] == 'start' and item[2].get('id'):
            require(re.fullmatch(r'[^\W\d][\w-]*', item[2]['id']), 'html-id-invalid', text)
    sentence_ids = [item[2].get('id') for item in items if item[0] == 'start' and item[2].get('class') == 'sentence']
    equal(len(set(sentence_ids)), len(roots), 'html-id-unique', text)
    identifiers = [item[2]['id'] for item in items if item[0] == 'start' and 'id' in item[2]]
    for entity in doc.coref_entities:
        if entity.mentions and id(entity.mentions[0].head.root) in shown:
            require(dom(entity.eid) in identifiers, 'html-link-target', text)
    return items


def check_page(out, doc, roots, options):
    if options.get('show_trees', True):
        start = out.index('docs_json = [false, ') + len('docs_json = ')
        end = out.index('];', out.index('docs_json = [false, ')) + 1
        while True:
            try:
                data = json.loads(out[start:end])
                break
            except ValueError as exc:
                end = out.find('];', end) + 1
                require(end, 'html-json', f'{exc}: {out[start:start + 2000]}')
        check_json(data[1], roots, out)
        require(data[0] is False and len(data) == 2, 'html-json', out)
    head = out[:out.index('</head>')]
    colors = options.get('colors', 7)
    equal(re.findall(r'^\.c(\d+) {color: hsl', head, re.M), [str(i) for i in range(colors)], 'html-color-styles', head)
    for name in ('eid', 'etype'):
        equal(re.findall(rf'^\.{name} {{display: none;}}$', head, re.M), [f'.{name} {{display: none;}}'] * (not options.get('show_' + name)), 'html-hidden', head)
    place = re.escape(options['path_to_js']) if 'path_to_js' in options else 'https://[^"]*'
    for library in ('jquery-3.6.3.min.js', 'pako.min.js', 'js-treex-view.js'):
        count = 0 if library.startswith('js') and not options.get('show_trees', True) else 1
        equal(len(re.findall(rf'<script src="{place}/{library}"></script>', head)), count, 'html-libraries', head)
    # everything but styles and scripts
    items = decode(out)[2]
    rows, row, cell = [], [], None
    for item in items:
        if item[:2] == ['start', 'tr']:
            row = []
        elif item[:2] == ['start', 'td']:
            cell = ''
        elif item[:2] == ['end', 'td']:
            row.append(cell)
            cell = None
        elif item[:2] == ['end', 'tr']:
            rows.append(row)
        elif item[0] == 'data' and cell is not None:
            cell += item[1]
    want = []
    for entity in doc.coref_entities:
        heads = [m.head for m in entity.mentions]
        best = ([h for h in heads if h.upos == 'PROPN'] or [h for h in heads if h.upos == 'NOUN'] or heads)[:1]
        want.append([entity.eid, str(len(heads)), *((best[0].lemma if best[0].lemma not in (None, '', '_') else best[0].form) for _ in best)])
        if not best:
            want[-1].append('')
    equal([r for r in rows if r], want, 'html-overview', '')


def check_json(data, roots, out):
    equal(len(data), len(roots), 'html-json-trees', str(data))
    for found, root in zip(data, roots):
        zone = found['zones'][root.zone]
        equal([x['data']['form'] for x in zone['trees']['a']['nodes'][1:]], [x.form for x in root.descendants], 'html-json-forms', str(data))


def case_html(case, rec):
    doc, root, nodes, mentions = make(case['n'], case['mentions'])
    string = case.get('string')
    if string:
        where, place = case['where'], case['place']
        if where in ('form', 'lemma', 'upos'):
            setattr(nodes[place], where, string)
        elif where == 'other':
            if place > 1 or not string.isalpha() and string in '()':
                return
            mentions[place].other['k'] = string
        elif where == 'newdoc':
            root.newdoc = string
        elif where == 'etype':
            if place > 1 or string != 'x':
                return
            mentions[place].entity.etype = string
        else:
            root.text = string
    with workdir():
        out = write_html(doc, rtl=case.get('rtl'))
    if case.get('whole'):
        check_page(out, doc, [root], {})
    found = MAIN.search(out)
    require(found, 'html-main', out)
    items = check_sentences(found.group(), [root], doc, {'rtl': case.get('rtl')})
    if string and case['where'] == 'newdoc':
        i = items.index(['start', 'h1', {}])
        equal(items[i + 1], ['data', string], 'html-newdoc', found.group())


def case_nothing(case, rec):
    from udapi.core.document import Document
    doc = Document()
    if case['trees']:
        doc.create_bundle().create_tree()
    if case['entities']:
        doc.create_coref_entity('e9')
    with workdir():
        out = write_html(doc)
    check_page(out, doc, list(doc.trees), {})


def case_documents(case, rec):
    doc = None
    roots, all_nodes = [], []
    for i in range(3):
        doc, root, nodes, _ = make(3, [], forms=['abc', 'def', 'ghi'][i], doc=doc)
        root.newdoc = f'doc {i}' if case['newdocs'][i] else None
        root.newpar = f'par {i}' if case['newpars'][i] else None
        roots.append(root)
        all_nodes.append(nodes)
    add(doc, all_nodes[0], [['e1', [0, 1], 0]])
    add(doc, all_nodes[1], [['e2', [0, 2], 0], ['e1', [2], 2]])
    add(doc, all_nodes[2], [['e1', [1], 1], ['e3', [0, 1, 2], 2], ['e4', [2], 2]])
    groups = []
    for i, root in enumerate(roots):
        if i == 0 or case['newdocs'][i]:
            groups.append([])
        groups[-1].append(root)
    options = dict(case['options'])
    with workdir():
        path = options.get('path')
        docs_dir = options.get('docs_dir', 'docs')
        if path:
            doc.meta['loaded_from'] = 'in/some.conllu'
        out = write_html(doc, **options)
        if path:
            with open('out/some.html', encoding='utf-8') as handle:
                out = handle.read()
            docs_dir = 'out/' + docs_dir
        pages, data = [], []
        for number in range(2, len(groups) + 1):
            with gzip.open(f'{docs_dir}/doc{number}.html.gz', 'rt', encoding='utf-8') as handle:
                pages.append(handle.read())
            if options.get('show_trees', True):
                with gzip.open(f'{docs_dir}/doc{number}.json.gz', 'rt', encoding='utf-8') as handle:
                    data.append(json.load(handle))
    check_page(out, doc, groups[0], options)
    pages.insert(0, MAIN.search(out).group())
    for page, group in zip(pages, groups):
        items = check_sentences(page, group, doc, options)
        equal([item[2]['id'] for item in items if item[0] == 'start' and item[2].get('class') == 'doc'], [f'doc{pages.index(page) + 1}'], 'html-page-number', page)
        equal(sum(item == ['start', 'h1', {}] for item in items), sum(bool(root.newdoc) for root in group), 'html-newdoc', page)
        equal(sum(item == ['start', 'hr', {'class': 'par'}] for item in items), sum(bool(root.newpar) and not root.newdoc for root in group), 'html-newpar', page)
        equal([item[2]['data-id'] for item in items if item[:2] == ['start', 'p']], [root.sent_id for root in group], 'html-sent-id', page)
    for found, group in zip(data, groups[1:]):
        check_json(found, group, '')
    require(f'var all_docs = {len(groups)};' in out, 'html-number-of-documents', out[-3000:])
    require(f'var docs_dir = "{options.get("docs_dir", "docs")}";' in out, 'html-docs-dir', out[-3000:])
    colors = options.get('colors', 7)
    counts = {}
    for entity in doc.coref_entities:
        index = counts.get(entity.etype, 0)
        counts[entity.etype] = index + 1
        for page in pages:
            for attrs in decode(page)[1]:
                classes = attrs['class'].split()
                if entity.eid in classes:
                    equal([c for c in classes if re.match(r'c\d+$', c)], [f'c{index % colors}'] if colors else [], 'html-colors', page)


# ---------------------------------------------------------------- OldCorefUD

def observe(doc):
    result = {}
    number = {root: i for i, root in enumerate(doc.trees)}
    for entity in doc.coref_entities:
        mentions = []
        for m in entity.mentions:
            links = sorted((link.target.eid, link.relation) for link in m.bridging)
            mentions.append((number[m.head.root], [str(w.ord) for w in m.words], str(m.head.ord), str(m.other), links))
        result[entity.eid] = (entity.etype or '', sorted(mentions), sorted(e.eid for e in entity.split_ante))
    return result


def old_round_trip(doc):
    from udapi.block.write.oldcorefud import OldCorefUD as Writer
    from udapi.block.read.oldcorefud import OldCorefUD as Reader
    from udapi.core.document import Document
    want = observe(doc)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        writer = Writer()
        writer.before_process_document(doc)
        writer.process_document(doc)
        writer.after_process_document(doc)
    text = out.getvalue()
    require('Entity=' not in text and 'Bridge=' not in text and 'global.Entity' not in text, 'old-new-style-left', text)
    equal(observe(doc), want, 'old-document-changed', text)
    again = Document()
    Reader(filehandle=io.StringIO(text)).process_document(again)
    equal(observe(again), want, 'old-round-trip', text)
    for node in again.nodes_and_empty:
        require(not any(re.match(r'(ClusterId|MentionSpan|ClusterType|Bridging|SplitAnte|MentionMisc)', key) for key in node.misc), 'old-attributes-left', text)
    for entity in again.coref_entities:
        for mention in entity.mentions:
            require(mention.entity is entity and all(mention in w.coref_mentions for w in mention.words), 'old-links', text)
    return again, text


def case_old(case, rec):
    doc, root, nodes, mentions = make(case['n'], case['mentions'])
    nodes[0].misc['X'] = '1'
    again, text = old_round_trip(doc)
    equal([str(node.misc['X']) for node in again.nodes_and_empty], ['1'] + [''] * (case['n'] - 1), 'old-other-misc', text)


def case_attributes(case, rec):
    doc, root, nodes, mentions = make(4, [['e1', [0, 1], 0], ['e1', [2], 2], ['e2', [0], 0], ['e3', [1, 3], 3], ['e4', [1], 1], ['e5', [3], 3]])
    e1, e2, e3 = (doc.eid_to_entity[eid] for eid in ('e1', 'e2', 'e3'))
    e1.etype, e2.etype = case['etypes']
    for mention, other, bridging in zip(mentions, case['other'], case['bridging']):
        for pair in filter(None, other.split(',')):
            key, value = pair.split(':')
            mention.other[key] = value
        for eid, relation in bridging:
            mention.bridging.append((doc.eid_to_entity[eid], relation))
    e1.split_ante = sorted(doc.eid_to_entity[eid] for eid in case['split'])
    old_round_trip(doc)


def case_hyphens(case, rec):
    from udapi.block.read.oldcorefud import OldCorefUD as Reader
    from udapi.core.document import Document
    eids = list(case['eids']) + list(case['eids'][::-1]) * case['repeat']
    lines = []
    for i, eid in enumerate(eids, 1):
        bridging = f'|Bridging={eids[0]}:x' if eid != eids[0] else ''
        lines.append(f'{i}\tw\tw\tX\t_\t_\t0\tdep\t_\tClusterId={eid}{bridging}|MentionSpan={i}')
    text = '\n'.join(lines) + '\n\n'
    doc = Document()
    Reader(filehandle=io.StringIO(text), replace_hyphen_in_id_with=case['replacement']).process_document(doc)
    groups = {}
    for entity in doc.coref_entities:
        require('-' not in entity.eid, 'old-hyphen', text)
        equal(doc.eid_to_entity[entity.eid] is entity, True, 'old-eids', text)
        for mention in entity.mentions:
            groups.setdefault(entity.eid, []).append(mention.head.ord)
            if mention.bridging:
                equal([eids[link.target.mentions[0].head.ord - 1] for link in mention.bridging], [eids[0]], 'old-hyphen-bridging', text)
    want = {}
    for i, eid in enumerate(eids, 1):
        want.setdefault(eid, []).append(i)
    equal(sorted(groups.values()), sorted(want.values()), 'old-hyphen-clusters', f'{groups} {text}')
    for eid, group in groups.items():
        if '-' not in eids[group[0] - 1] and not any('-' in other for other in eids):
            equal(eid, eids[group[0] - 1], 'old-eid-changed', text)


# ---------------------------------------------------------------- CoNLL-2012

def conll2012_sentence(n, mentions, style, layout, docname):
    rows = []
    for i in range(n):
        chunks = []
        for eid, words in mentions:
            if words[0] == i == words[-1]:
                chunks.append((1, 0, f'({eid})'))
            elif words[0] == i:
                chunks.append((2, -len(words), f'({eid}'))
            elif words[-1] == i:
                chunks.append((0, len(words), f'{eid})'))
        if style == 1:      # opening brackets first (ambiguous without the separator)
            chunks.sort(key=lambda c: ({2: 0, 1: 1, 0: 2}[c[0]], c[1]))
        elif style == 3:
            chunks.sort(key=lambda c: ({1: 0, 0: 1, 2: 2}[c[0]], c[1]))
        else:
            chunks.sort(key=lambda c: (c[0], c[1]))
        coref = ('|' if style < 2 else '').join(c[2] for c in chunks) or '_'
        values = {'docname': docname, 'ord': str(i), 'form': 'abcdefghijklm'[i], 'coref': coref}
        rows.append('\t'.join(values.get(name, 'ignored') for name in layout.split(',')))
    return '\n'.join(rows)


def case_conll2012(case, rec):
    from udapi.block.read.conll2012 import Conll2012
    from udapi.core.document import Document
    n, mentions = case['n'], case['mentions']
    for style in range(4):
        for layout, name, header in (('docname,_,ord,form,_,_,_,_,_,_,_,_,coref', 'x-y', '#begin document (x-y); part 0'), ('ord,form,coref', 'z', '#begin document z.txt.xml')):
            first = conll2012_sentence(n, mentions, style, layout, name)
            second = conll2012_sentence(1, [['1', [0]]], style, layout, name)
            third = conll2012_sentence(2, [['1', [0, 1]]], style, layout, 'q')
            blank = '\n\n' if style != 1 else '\n'
            text = f'{header}\n{first}\n\n{second}{blank}#end document\n{header.replace(name, "q")}\n{third}{blank}#end document\n'
            doc = Document()
            reader = Conll2012(filehandle=io.StringIO(text), attributes=layout)
            reader.process_document(doc)
            roots = list(doc.trees)
            equal([[w.form for w in root.descendants] for root in roots], [list('abcdefghijklm'[:n]), ['a'], ['a', 'b']], 'conll2012-words', text)
            for root in roots:
                trees.check_tree(root)
            equal([root.newdoc for root in roots], [name, None, 'q'], 'conll2012-newdoc', text)
            got = {}
            for entity in doc.coref_entities:
                got[entity.eid] = sorted((roots.index(m.head.root), [w.ord - 1 for w in m.words], m.head.ord - 1) for m in entity.mentions)
            want = {}
            short = name.replace('-', '')
            for eid, words in mentions:
                want.setdefault(f'{short}_e{eid}', []).append((0, words, words[0]))
            want.setdefault(f'{short}_e1', []).append((1, [0], 0))
            want['q_e1'] = [(2, [0, 1], 0)]
            equal(got, {eid: sorted(x) for eid, x in want.items()}, 'conll2012-mentions', text)


def case_conll2012layout(case, rec):
    """Columns in any order, document names, lines with columns missing."""
    from udapi.block.read.conll2012 import Conll2012
    from udapi.block.write.conllu import Conllu
    from udapi.core.document import Document
    layout, name = case['layout'], case['name']
    words = [('a', 'la', 'X'), ('_', '_', 'Y'), ('b', '_', '_')]
    rows = []
    for i, word in enumerate(words):
        values = dict(zip(('form', 'lemma', 'upos', 'ord', '_', 'coref'), word + (str(i), 'w', '(1)' if i != 1 else '(2)')))
        row = [values[column] for column in layout]
        rows.append('\t'.join(row[:len(row) - case['missing']]))
    text = f'#begin document {name}\n' + '\n'.join(rows) + '\n\n#end document\n'
    doc = Document()
    try:
        Conll2012(filehandle=io.StringIO(text), attributes=','.join(layout), strict=case['strict']).process_document(doc)
    except RuntimeError:
        require(case['missing'] and case['strict'], 'conll2012-refused', text)
        return
    require(not (case['missing'] and case['strict']), 'conll2012-accepted', text)
    root, = doc.trees
    kept = layout[:len(layout) - case['missing']]
    plain = lambda value: None if value == '_' else value
    want = [(word[0], plain(word[1]) if 'lemma' in kept else None, plain(word[2]) if 'upos' in kept else None) for word in words]
    equal([(node.form, plain(node.lemma), plain(node.upos)) for node in root.descendants], want, 'conll2012-values', text)
    short = name
    if name.startswith('('):
        short = 'a'
    elif name.startswith('/home/'):
        short = name.split('/')[-1]
    short = short.replace('.txt', '').replace('.xml', '')
    equal(root.newdoc, short, 'conll2012-newdoc', text)
    groups = sorted([[m.head.ord for m in e.mentions] for e in doc.coref_entities])
    equal(groups, [[1, 3], [2]] if 'coref' in kept else [], 'conll2012-mentions', text)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        writer = Conllu()
        writer.before_process_document(doc)
        writer.process_document(doc)
        writer.after_process_document(doc)
    equal([line for line in out.getvalue().splitlines() if 'newdoc' in line or 'global.Entity' in line], [f'# newdoc id = {short}', '# global.Entity = eid-etype-head-other'], 'conll2012-header', out.getvalue())


def case_oldlinks(case, rec):
    """Links to the entity itself and to entities which are nowhere defined are refused, links to later entities are not."""
    from udapi.block.read.oldcorefud import OldCorefUD as Reader
    from udapi.core.document import Document
    eids = case['eids']
    lines, split, bridging, wrong = [], {}, [], False
    for i, eid in enumerate(eids):
        misc = f'ClusterId={eid}'
        found = re.findall(r'e\d', case['split'][i])
        if found:
            misc += '|SplitAnte=' + case['split'][i]
            split[eid] = found
        links = [tuple(link.split(':')) for link in case['bridging'][i].split(',') if link]
        if links:
            misc += '|Bridging=' + case['bridging'][i]
        bridging.append(links)
        wrong = wrong or eid in found or any(t == eid for t, _ in links) or any(t not in eids for t in found + [t for t, _ in links])
        lines.append(f'{i + 1}\tw\tw\tX\t_\t_\t0\tdep\t_\t{misc}')
    text = '\n'.join(lines) + '\n\n'
    doc = Document()
    reader = Reader(filehandle=io.StringIO(text))
    try:
        reader.process_document(doc, strict=case['strict'])
    except ValueError:
        # links of bridging to the same entity cannot be represented at all
        require(wrong and (case['strict'] or any(t == eid for eid, links in zip(eids, bridging) for t, _ in links)), 'old-refused', text)
        return
    require(not (wrong and case['strict']), 'old-accepted', text)
    for entity in doc.coref_entities:
        require(doc.eid_to_entity[entity.eid] is entity, 'old-eids', text)
        require(all(doc.eid_to_entity[other.eid] is other for other in entity.split_ante), 'old-split-entity', text)
        equal(sorted(other.eid for other in entity.split_ante), sorted(split.get(entity.eid, [])), 'old-split', text)
        for mention in entity.mentions:
            links = [(link.target, link.relation) for link in mention.bridging]
            require(all(doc.eid_to_entity[target.eid] is target for target, _ in links), 'old-bridging-entity', text)
            equal(sorted((target.eid, relation) for target, relation in links), sorted(bridging[mention.head.ord - 1]), 'old-bridging', text)
