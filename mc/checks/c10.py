"""C10: coreference written to a file and loaded again is the same; every legal file loads as the format says."""
import itertools
import re

from mc.core import Fail, require, equal, raises

from mc import corefmodel, conllu
from mc.checks.c12 import ids_of, make

TITLE = ('All sets of up to 3-4 mentions (all node subsets, discontinuous and with empty nodes, all entity assignments) of a small sentence, all '
         'attribute combinations x header formats, all small configurations of bridging, split antecedents and deletions: API -> file -> an '
         'independent parser and reload; and all chunk orders allowed in a file -> API')
ASSUMPTIONS = ['mentions of one entity do not have the same (sub)span and do not cross in two or more words, and if they are discontinuous, they '
               'are nested in one part (but do not end on its last word) or gap of the other (the format cannot express anything else)',
               'attribute values do not contain the reserved characters - ( ) , | < or percent escapes',
               'a mention with bridging does not start on the same word as another mention of its entity',
               'split antecedents are at least two']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'geometry': [[5, 3], [4, 4]] + ([[6, 3], [5, 4]] if big else []), 'orders': [[4, 3]] if not big else [[5, 3]],
            'layouts': LAYOUTS, 'header_formats': len(FORMATS), 'long_mentions': '26 nodes, up to 13 parts'}


LAYOUTS = {4: [[4, [0] * 5], [3, [0, 0, 1, 0]]], 5: [[5, [0] * 6], [3, [0, 1, 0, 1]], [3, [1, 0, 0, 1]]], 6: [[4, [0, 0, 2, 0, 0]]]}
FORMATS = ['eid-etype-head-other', 'eid-etype-head', 'eid-head-etype', 'eid', 'eid-etype', 'eid-etype-head-minspan-other',
           'eid-minspan-etype-head-other', 'eid-etype-head-infstat-minspan-link-identity', 'GRP-etype-head-other', 'entity-GRP-head-other',
           'eid-other-head-etype', 'eid-etype-head-other-minspan']
PARTITIONS = {1: [(0,)], 2: [(0, 0), (0, 1)], 3: [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 1, 2)],
              4: [p for p in itertools.product(range(4), repeat=4) if all(p[i] <= max((-1, *p[:i])) + 1 for i in range(4))]}


def subsets(n):
    return [list(c) for size in range(1, n + 1) for c in itertools.combinations(range(n), size)]


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n, limit in bounds['geometry']:
        for l, _ in enumerate(LAYOUTS[n]):
            for first in range(2 ** n - 1):
                result.append({'kind': 'geometry', 'n': n, 'layout': l, 'first': first, 'limit': limit})
    for n, limit in bounds['orders']:
        for l, _ in enumerate(LAYOUTS[n]):
            for first in range(2 ** n - 1):
                result.append({'kind': 'orders', 'n': n, 'layout': l, 'first': first, 'limit': limit})
    result += [{'kind': 'attributes', 'format': f} for f in range(len(FORMATS))]
    result += [{'kind': 'links', 'part': i} for i in range(16)] + [{'kind': 'groups', 'count': n} for n in (1, 2, 3, 4)] + [{'kind': 'lenient', 'start': i} for i in range(6)]
    result += [{'kind': 'long', 'first': first} for first in range(6)]
    return result


def run_shard(shard, rec):
    kind = shard['kind']
    if kind in ('geometry', 'orders'):
        alls = subsets(shard['n'])
        layout = LAYOUTS[shard['n']][shard['layout']]
        for count in range(1, shard['limit'] + 1):
            for rest in itertools.combinations_with_replacement(range(shard['first'], len(alls)), count - 1):
                chosen = [shard['first'], *rest]
                sets = [alls[i] for i in chosen]
                for entities in PARTITIONS[count]:
                    if any(entities[i] == entities[j] and corefmodel.same_entity_conflict(sets[i], sets[j])
                           for i, j in itertools.combinations(range(count), 2)):
                        continue
                    rec.run({'kind': kind, 'layout': layout, 'sets': sets, 'entities': entities})
    elif kind == 'groups':
        for newdocs in itertools.product((None, True, 'x') if shard['count'] < 4 else (None, True), repeat=shard['count']):
            for groups in itertools.product(('', '1', '2', '12'), repeat=shard['count']):
                rec.run({'kind': kind, 'newdocs': newdocs, 'groups': groups})
    elif kind == 'lenient':
        for last in range(shard['start'], 7):
            for head in ('1', '2', '5', 'x', ''):
                rec.run({'kind': kind, 'span': [shard['start'], last], 'head': head, 'other': None})
                for other in itertools.combinations_with_replacement(range(6), 2):
                    for same in (0, 1):
                        if other[0] // 3 == other[1] // 3 and not (same and not (other[1] < shard['start'] or other[0] > last)):
                            rec.run({'kind': kind, 'span': [shard['start'], last], 'head': head, 'other': other, 'same': same})
    elif kind == 'long':
        run_long(shard, rec)
    elif kind == 'attributes':
        fields = FORMATS[shard['format']].split('-')
        for items in ([0], [0, 1], [0, 1, 2], [0, 2], [1, 3, 4]):
            for head in items:
                for etype in (None, '', 'person'):
                    for other in OTHERS:
                        rec.run({'kind': kind, 'format': FORMATS[shard['format']], 'items': items, 'head': head, 'etype': etype, 'other': other})
    else:
        for i, case in enumerate(link_cases()):
            if i % 16 == shard['part']:
                rec.run(case)


def run_long(shard, rec):
    """Mentions with ten or more words or parts, and pairs of long mentions."""
    layout = [24, [0] * 9 + [1, 1] + [0] * 14]
    n = 26
    pool = [list(range(0, n, 2)), list(range(3, n, 2)), list(range(1, 14)), list(range(12, n)), list(range(n)), [0, *range(5, 17), 20]]
    one = pool[shard['first']]
    for i in range(len(one)):
        rec.run({'kind': 'geometry', 'layout': layout, 'sets': [one], 'entities': [0], 'heads': [i]})
        rec.run({'kind': 'attributes', 'format': FORMATS[5], 'items': one, 'head': one[i], 'etype': 'person', 'other': {'minspan': '10,11'}, 'layout': layout})
    for two in pool:
        for entities in PARTITIONS[2]:
            if two is not one and not (entities[0] == entities[1] and corefmodel.same_entity_conflict(one, two)):
                for i in range(len(two)):
                    rec.run({'kind': 'geometry', 'layout': layout, 'sets': [one, two], 'entities': entities, 'heads': [i % len(one), i]})


OTHERS = [{}, {'a': '1'}, {'flag': True}, {'b': 'x:y', 'a': '1'}, {'minspan': '1'}, {'minspan': '1', 'z': '2'}, {'minspan': '1,2'}, {'minspan': '1,2,4'},
          {'infstat': 'new', 'identity': 'Paris'}, {'k': 'a,b'}, {'link': 'coref', 'minspan': '2', 'q': 'w', 'identity': 'X_Y'},
          {'etype': 'E', 'head': 'H', 'other': 'O'}]


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


def misc_of(doc):
    return [[(str(n.ord), dict(n.misc)) for n in tree.descendants_and_empty] for tree in doc.trees]


def check_file(doc, fields, want, where, rec):
    """want: {eid: (etype, [(items, head, other, bridging)], split_ante)} with positions (sent, id); the document has been built via the API."""
    try:
        text = doc.to_conllu_string()
    except Exception as exc:
        raise Fail('store-failed', f'{where()}: {exc!r}') from exc
    rec.step()
    loaded = conllu.read_string(text)
    try:
        got = corefmodel.observe(loaded)
    except Exception as exc:
        raise Fail('load-failed', f'{where()}: {exc!r} {text}') from exc
    rec.step()
    require(got == want, 'reloaded-differs', lambda: f'{where()}: got {got}, want {want}, file {text}')
    # an independent parser of the file
    try:
        mentions, links, splits = corefmodel.parse(misc_of(conllu.read_string(text)), fields)
    except (AssertionError, KeyError, IndexError) as exc:
        raise Fail('file-not-well-formed', f'{where()}: {exc!r} {text}') from exc
    ids = [[i for i, _ in nodes] for nodes in misc_of(loaded)]
    parsed = {}
    for m in mentions:
        head = int(m['values'].get('head') or 1)
        place = [(m['sent'], ids[m['sent']][p]) for p in m['items']]
        parsed.setdefault(m['eid'], []).append((place, place[head - 1]))
    expected = {e: [(p, h) for p, h, _, _ in v[1]] for e, v in want.items()}
    require({e: sorted(v) for e, v in parsed.items()} == {e: sorted(v) for e, v in expected.items()}, 'file-differs',
            lambda: f'{where()}: got {parsed}, want {expected}, file {text}')
    bridges = sorted((m[0][0], target, relation, eid) for eid, v in want.items() for m in v[1] for target, relation in m[3])
    require(sorted(((s, ids[s][p]), target, relation, source) for s, p, source, target, relation in links) == bridges, 'file-bridging-differs',
            lambda: f'{where()}: got {links}, want {bridges}')
    ante = sorted((eid, a) for eid, v in want.items() for a in v[2])
    require(sorted(splits) == ante, 'file-splitante-differs', lambda: f'{where()}: got {splits}, want {ante}')
    # the order of entities and the stability of the file
    firsts = [loaded.eid_to_entity[e].mentions[0] for e in loaded.eid_to_entity]
    keys = [sort_key(m) for m in firsts]
    require(keys == sorted(keys), 'entities-not-sorted', lambda: f'{where()}: {keys}')
    again = loaded.to_conllu_string()
    require(normalize(again) == normalize(text), 'second-file-differs', lambda: f'{where()}: {conllu.first_difference(again, text)}')
    rec.step()
    return loaded


def normalize(text):
    # The order of the entities within one SplitAnte attribute depends on the order in which the entities were created.
    return re.sub(r'SplitAnte=([^|\n]*)', lambda m: 'SplitAnte=' + ','.join(sorted(m.group(1).split(','))), text)


def sort_key(mention):
    trees = list(mention.head.root.document.trees)
    key = conllu.id_key
    def pos(node):
        return (trees.index(node.root), *key(str(node.ord) if '.' in str(node.ord) else f'{node.ord}.0'))
    return (pos(mention.words[0]), -len(mention.words), pos(mention.words[-1]), mention.entity.eid)


def model_order(mentions):
    return sorted(mentions, key=lambda m: (m['items'][0], -len(m['items']), m['items'][-1]))


def expected(mentions, ids, etypes=None):
    want = {}
    for m in model_order(mentions):
        entry = want.setdefault(m['eid'], ((etypes or {}).get(m['eid'], ''), [], []))
        entry[1].append(([(0, ids[i]) for i in m['items']], (0, ids[m['head']]), {}, []))
    return want


def mentions_of(case):
    mentions = []
    for k, (items, entity) in enumerate(zip(case['sets'], case['entities'])):
        mentions.append({'eid': f'e{entity + 1}', 'items': items, 'head': items[case['heads'][k] if 'heads' in case else (k + len(items)) % len(items)]})
    return mentions


def ambiguous_order(mentions):
    """Same-entity mentions which the sorting does not distinguish (same first and last word and length)."""
    keys = [(m['eid'], m['items'][0], -len(m['items']), m['items'][-1]) for m in mentions]
    return len(set(keys)) != len(keys)


def case_geometry(case, rec):
    layout = case['layout']
    ids = ids_of(layout)
    doc, _, order = make(layout)
    mentions = mentions_of(case)
    if ambiguous_order(mentions):
        return
    # created in the reversed order
    for m in mentions[::-1]:
        entity = doc.eid_to_entity.get(m['eid']) or doc.create_coref_entity(m['eid'])
        entity.create_mention(head=order[m['head']], words=[order[i] for i in m['items']])
        rec.step()
    check_file(doc, FORMATS[0].split('-'), expected(mentions, ids), lambda: str(case), rec)


def case_orders(case, rec):
    layout = case['layout']
    ids = ids_of(layout)
    mentions = mentions_of(case)
    if ambiguous_order(mentions):
        return
    variants = corefmodel.serialize(mentions, len(ids))
    want = expected(mentions, ids)
    for choice in itertools.product(*variants):
        doc, root, order = make(layout)
        root.newdoc = True
        doc.meta['global.Entity'] = 'eid-etype-head'
        for node, entity in zip(order, choice):
            if entity:
                node.misc['Entity'] = entity
        try:
            got = corefmodel.observe(doc)
        except Exception as exc:
            raise Fail('load-failed', f'{choice}: {exc!r}') from exc
        require(got == want, 'loaded-differs', lambda: f'{choice}: got {got}, want {want}')
        rec.step()
        rec.trace()


def case_attributes(case, rec):
    fields = case['format'].split('-')
    layout = case.get('layout') or [4, [0, 0, 1, 0, 0]]
    ids = ids_of(layout)
    doc, root, order = make(layout)
    if 'head' not in fields and case['head'] != case['items'][0]:
        return
    if 'etype' not in fields and 'entity' not in fields and case['etype']:
        return
    if case['items'] == [0, 2] and case['other'] == {'k': 'a,b'}:
        pass
    named = [f for f in fields if f not in ('eid', 'etype', 'head', 'other', 'GRP', 'entity')]
    if 'other' not in fields and not set(case['other']) <= set(named):
        return
    if any(f in case['other'] and case['other'][f] is True for f in named):
        return
    root.newdoc = True
    doc.meta['global.Entity'] = case['format']
    grp = 'GRP' in fields
    entity = doc.create_coref_entity('e1', case['etype'])
    if grp:
        prefix = doc.meta['_tree2docid'][root]
        entity.eid = prefix + 'e1'
        doc.eid_to_entity.clear()
        doc.eid_to_entity[entity.eid] = entity
    mention = entity.create_mention(head=order[case['head']], words=[order[i] for i in case['items']])
    for key, value in case['other'].items():
        mention.other[key] = value
    want_other = dict(mention.other)
    want = ('' if case['etype'] is None else case['etype'], [([(0, ids[i]) for i in case['items']], (0, ids[case['head']]), want_other, [])], [])
    text = doc.to_conllu_string()
    rec.step()
    loaded = conllu.read_string(text)
    got = corefmodel.observe(loaded)
    require(list(got.values()) == [want], 'reloaded-differs', lambda: f'{case}: got {got}, want {want}, {text}')
    eid = list(got)[0]
    equal(eid.split('.')[-1], 'e1', 'eid', str(case))
    # the file, read independently
    mentions, _, _ = corefmodel.parse(misc_of(conllu.read_string(text)), fields)
    require(len(mentions) == 1 and mentions[0]['eid'] == 'e1', 'file-differs', text)
    values = mentions[0]['values']
    equal(values.get('etype', values.get('entity')) or '', case['etype'] or '', 'file-etype', text)
    for name in named:
        value = case['other'].get(name, '')
        equal(values.get(name, ''), value, 'file-field', f'{case} {text}')
    rest = ','.join(f'{k}' if v is True else f'{k}:{v}' for k, v in sorted(want_other.items(), key=lambda p: p[0].lower()) if k not in named)
    equal(values.get('other', ''), rest, 'file-other', f'{case} {text}')
    again = loaded.to_conllu_string()
    require(again == text, 'second-file-differs', lambda: f'{case}: {conllu.first_difference(again, text)}')


def case_groups(case, rec):
    """Names of groups (GRP) are local to documents, entities are not shared by documents."""
    from udapi.core.document import Document
    lines, number, want, number_of_bundle = [], 0, {}, []
    for i, (newdoc, group) in enumerate(zip(case['newdocs'], case['groups'])):
        if newdoc:
            lines.append('# newdoc' + ('' if newdoc is True else f' id = {newdoc}{i}'))
        if not i:
            lines.append('# global.Entity = GRP-etype-head')
        number += 1 if newdoc or not i else 0
        number_of_bundle.append(number)
        lines.append(f'# sent_id = s{i}')
        for j, g in enumerate([group, group[:1]], 1):
            lines.append(f'{j}\tw\t_\t_\t_\t_\t{0 if j == 1 else 1}\tx\t_\t' + (f'Entity=({g}-person-1)' if g else '_'))
            if g:
                want.setdefault((number, g), []).append((i, j))
        lines.append('')
    text = '\n'.join(lines) + '\n'
    doc = Document()
    doc.from_conllu_string(text)
    bundles = {id(b): i for i, b in enumerate(doc.bundles)}
    got = {}
    for entity in doc.coref_entities:
        prefix, group = entity.eid.split('.')
        places = [(bundles[id(m.head.root.bundle)], m.head.ord) for m in entity.mentions]
        require(all(len(m.words) == 1 for m in entity.mentions), 'mention', text)
        numbers = {number_of_bundle[b] for b, _ in places}
        require(len(numbers) == 1 and (numbers.copy().pop(), group) not in got, 'groups-of-documents-mixed', lambda: f'{entity.eid} {places} in {text}')
        got[numbers.pop(), group] = places
    equal(got, want, 'groups', text)
    equal([n.misc['Entity'] for n in conllu.read_string(doc.to_conllu_string()).nodes], [line.split('Entity=')[1] if 'Entity=' in line else '' for line in lines if line[:1].isdigit()], 'saved-groups', text)


def case_lenient(case, rec):
    """corefud.Load strict=0 leaves out only mentions which cross sentences or are not closed; strict=1 reports such annotation (but not unclosed mentions)."""
    from udapi.core.document import Document
    from udapi.block.corefud.load import Load
    (first, last), head, other = case['span'], case['head'], case['other']
    entities = [''] * 6
    spans = [('e1', first, last, head)] + ([('e1' if case['same'] else 'e2', other[0], other[1], '1')] if other else [])
    for eid, i, j, _ in spans:
        if i < j < 6:
            entities[j] += eid + ')'
    for eid, i, j, h in spans:
        entities[i] += f'({eid}-x-{h}' + (')' if i == j else '')
    text = '# global.Entity = eid-etype-head\n'
    for s in (0, 1):
        text += f'# sent_id = {s + 1}\n' + ''.join(f'{k}\tw{k}\t_\t_\t_\t_\t{k - 1}\tx\t_\t' + (f'Entity={e}' if e else '_') + '\n' for k, e in enumerate(entities[3 * s:3 * s + 3], 1)) + '\n'
    size = last - first + 1
    unclosed, crossing = last == 6, last < 6 and first // 3 != last // 3
    bad_head = head in ('x', '') or not unclosed and not crossing and int(head) > size
    for strict in (False, True):
        doc = Document()
        doc.from_conllu_string(text)
        words = doc.nodes
        words = list(words)
        error = raises(lambda: Load(strict=strict).process_document(doc))
        where = f'{case} strict={strict} {text}'
        if first == last:
            # the head of a mention of one word is not checked
            if head in ('x', ''):
                require(isinstance(error, ValueError) if strict else error is None, 'error', f'{where}: {error!r}')
            else:
                require(error is None, 'error', f'{where}: {error!r}')
        elif strict and (crossing or bad_head):
            require(isinstance(error, ValueError), 'error', f'{where}: {error!r}')
            continue
        else:
            require(error is None, 'error', f'{where}: {error!r}')
        if error:
            continue
        want = []
        if not unclosed and not crossing:
            index = 0 if head in ('x', '') or first == last else min(int(head), size) - 1
            want.append(('e1', list(range(first, last + 1)), first + index))
        if other:
            want.append(('e1' if case['same'] else 'e2', list(range(other[0], other[1] + 1)), other[0]))
        place = {id(w): k for k, w in enumerate(words)}
        got = sorted((e.eid, [place[id(w)] for w in m.words], place[id(m.head)]) for e in doc.coref_entities for m in e.mentions)
        equal(got, sorted(want), 'mentions', where)
        equal(sorted(e.eid for e in doc.coref_entities), sorted({w[0] for w in want}), 'entities', where)
        for k, word in enumerate(words):
            equal(sorted((m.entity.eid, [place[id(w)] for w in m.words], place[id(m.head)]) for m in word.coref_mentions), sorted(w for w in want if k in w[1]), 'mentions-of-word', f'{k} {where}')
        rec.step()


# ---- bridging, split antecedents, deletions: mentions are (eid, sentence, items)
LINK_MENTIONS = [
    [('e1', 0, [0]), ('e2', 0, [1]), ('e3', 1, [0])],
    [('e1', 0, [0, 1]), ('e2', 0, [0]), ('e1', 1, [1]), ('e3', 1, [1])],
    [('e1', 0, [0, 2]), ('e2', 0, [0, 1]), ('e3', 0, [0])],
    [('e1', 0, [0]), ('e1', 1, [0]), ('e2', 1, [0, 1]), ('e3', 1, [2])],
]
RELATIONS = ['', 'part', 'a:b']


def link_cases():
    for base, mentions in enumerate(LINK_MENTIONS):
        eids = sorted({m[0] for m in mentions})
        choices = []
        for eid, _, _ in mentions:
            others = [e for e in eids if e != eid]
            options = [[]] + [[[o, r]] for o in others for r in RELATIONS] + [[[others[0], 'part'], [others[1], '']],
                                                                             [[others[1], 'b'], [others[0], 'a']], [[others[0], 'y'], [others[0], 'x']]]
            choices.append(options)
        splits = [{}, {'e3': ['e1', 'e2']}, {'e1': ['e3', 'e2'], 'e2': ['e1', 'e3']}, {'e1': ['e2', 'e3'], 'e2': ['e3', 'e1'], 'e3': ['e1', 'e2']}]
        # bridging on at most two mentions
        for i, j in itertools.combinations(range(len(mentions)), 2):
            for one in choices[i]:
                for two in choices[j]:
                    bridging = [[] for _ in mentions]
                    bridging[i], bridging[j] = one, two
                    for split in splits:
                        yield {'kind': 'links', 'base': base, 'bridging': bridging, 'split': split, 'delete': []}
        # deletions of mentions
        bridging = [[[o, 'part'] for o in eids if o != m[0]] for m in mentions]
        for size in range(1, len(mentions) + 1):
            for deleted in itertools.combinations(range(len(mentions)), size):
                for split in splits:
                    for reload_first in (0, 1):
                        yield {'kind': 'links', 'base': base, 'bridging': bridging, 'split': split, 'delete': list(deleted), 'reload': reload_first}


def case_links(case, rec):
    from udapi.core.document import Document
    doc = Document()
    words = [[doc_root.create_child(form='w') for _ in range(3)] for doc_root in (doc.create_bundle().create_tree(), doc.create_bundle().create_tree())]
    specs = LINK_MENTIONS[case['base']]
    objects = []
    for eid, sent, items in specs:
        entity = doc.eid_to_entity.get(eid) or doc.create_coref_entity(eid, 'T' + eid)
        objects.append(entity.create_mention(words=[words[sent][i] for i in items]))
        rec.step()
    for mention, links in zip(objects, case['bridging']):
        for target, relation in links:
            mention.bridging.append((doc.eid_to_entity[target], relation))
            rec.step()
    for eid, ante in case['split'].items():
        doc.eid_to_entity[eid].split_ante = [doc.eid_to_entity[a] for a in ante]
        rec.step()
    if case.get('reload'):
        doc = conllu.read_string(doc.to_conllu_string())
        trees = list(doc.trees)
        fresh = []
        for eid, sent, items in specs:
            fresh.append([m for m in doc.eid_to_entity[eid].mentions
                          if m.head.root is trees[sent] and [w.ord - 1 for w in m.words] == items][0])
        objects = fresh
    for i in case['delete']:
        objects[i].remove()
        rec.step()
    live = [i for i in range(len(specs)) if i not in case['delete']]
    alive = {specs[i][0] for i in live}
    want = {}
    for i in sorted(live, key=lambda i: (specs[i][1], specs[i][2][0], -len(specs[i][2]))):
        eid, sent, items = specs[i]
        entry = want.setdefault(eid, ('T' + eid, [], []))
        entry[1].append(([(sent, str(k + 1)) for k in items], (sent, str(items[0] + 1)), {},
                         sorted((t, r) for t, r in case['bridging'][i] if t in alive)))
    for eid, ante in case['split'].items():
        kept = [a for a in ante if a in alive]
        if eid in alive and len(kept) > 1:
            want[eid][2].extend(kept)
    if not want:
        text = doc.to_conllu_string()
        require('Entity=' not in text and 'Bridge' not in text and 'SplitAnte' not in text, 'annotation-left', lambda: f'{case}: {text}')
        return
    check_file(doc, FORMATS[0].split('-'), want, lambda: str(case), rec)
