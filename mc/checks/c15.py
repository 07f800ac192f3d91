"""C15: documents, bundles, zones and sentence ids under all sequences of operations, vs. a reference model."""
import itertools

from mc.core import require, equal

TITLE = ('All sequences of operations on documents and bundles (creating, removing and moving bundles and trees, changing zones, bundle ids and sentence ids, '
         'including invalid operations) up to the depth bound; after every operation all observations are compared with a reference model')
ASSUMPTIONS = ['a tree is added to a bundle only when it is in no other bundle', 'assigning sent_id to a tree with a non-empty zone includes the zone',
               'zones of trees which were removed from their bundle are not changed before adding the tree elsewhere']
ZONES = ('', 'en', 'cs_x')
BAD = ('all', 'EN', 'a b', 'en_')


def BOUNDS(tier):
    big = tier != 'quick'
    return {'depth_all_sequences': 4 if big else 3, 'depth_distinct_states': 8 if big else 6, 'bundles': 3, 'trees_per_bundle': 2, 'detached_trees': 1, 'long_documents': '12 bundles, 2 operations', 'zones': list(ZONES)}


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'api', 'first': first, 'depth': 2 if tier == 'quick' else 3} for first in range(4)]
    result += [{'kind': 'long', 'first': first, 'depth': 0} for first in range(8)]
    result += [{'kind': 'noid', 'first': 0, 'depth': 4 if tier == 'quick' else 5}]
    result += [{'kind': 'all', 'first': first, 'depth': bounds['depth_all_sequences']} for first in range(3)]
    result += [{'kind': 'graph', 'first': i, 'depth': bounds['depth_distinct_states']} for i in range(len(START))]
    return result


# what the exploration of distinct states starts with
START = [[], [['bundle'], ['tree', 0, ''], ['bundle'], ['tree', 1, 'en']], [['bundle'], ['tree', 0, 'en'], ['tree', 0, ''], ['bundle'], ['tree', 1, '']],
         [['bundle'], ['tree', 0, ''], ['bundle'], ['tree', 1, ''], ['bundle'], ['tree', 2, '']],
         [['bundle'], ['tree', 0, ''], ['bundle'], ['tree', 1, ''], ['bundle'], ['tree', 2, ''], ['remove', 0]],
         [['bundle'], ['tree', 0, 'en'], ['tree', 0, 'cs_x'], ['detach', 0, 0]], [['bundle'], ['tree', 0, None], ['bundle'], ['detach', 0, 0]],
         [['bundle'], ['bundle'], ['tree', 1, ''], ['bid', 1, 'x']]]


def run_shard(shard, rec):
    if shard['kind'] == 'api':
        # every bundle: zones of its trees, newdoc
        bundles = [[zones, newdoc] for zones in (['']  , ['en'], ['', 'en'], ['cs_x', 'en']) for newdoc in (0, 1)]
        for length in range(shard['depth'] + 1):
            for number, chosen in enumerate(itertools.product(bundles, repeat=length)):
                if number % 4 == shard['first']:
                    rec.run({'kind': 'api', 'bundles': list(chosen)})
        if not shard['first']:
            for length in range(5):
                for lines in itertools.product(('a b', '', 'č '), repeat=length):
                    for final in (0, 1):
                        rec.run({'kind': 'txt', 'lines': lines, 'final': final})
        return
    if shard['kind'] == 'long':
        # 12 bundles, any operation followed by any operation on bundles with interesting numbers
        start = [op for i in range(12) for op in (['bundle'], ['tree', i, ('', 'en')[i % 2]])]
        for op in (menu(replay_model(start)) + [['bundle']])[shard['first']::8]:
            if rec.run({'ops': start + [op]}):
                for second in menu(replay_model(start + [op])) + [['bundle']]:
                    if len(second) < 2 or second[1] in (9, 10):
                        rec.run({'ops': start + [op, second]})
        return
    if shard['kind'] == 'noid':
        choices = [['tree', z] for z in ZONES] + [['id', 'x'], ['id', 'y/z'], ['id', 'w1'], ['zone', 0, 'cs_x'], ['zone', 0, ''], ['zone', 1, 'en'], ['remove', 0]]
        for depth in range(1, shard['depth'] + 1):
            for ops in itertools.product(choices, repeat=depth):
                rec.run({'kind': 'noid', 'ops': list(ops)})
        # the same before the tree is in any bundle
        choices = [['zone', z] for z in ZONES + (None,)] + [['id', 'x'], ['id', 'y']]
        for depth in range(shard['depth'] + 1):
            for ops in itertools.product(choices, repeat=depth):
                for home in ('document', 'bundle', 'later'):
                    rec.run({'kind': 'free', 'ops': list(ops), 'home': home})
        return
    if shard['kind'] == 'all':
        def expand(ops, depth):
            world = replay_model(ops)
            choices = menu(world)
            if not ops:
                choices = choices[shard['first']::3]
            for op in choices:
                if rec.run({'ops': ops + [op]}) and depth > 1:
                    expand(ops + [op], depth - 1)
        for start in START[:3]:
            if start:
                for op in menu(replay_model(start))[shard['first']::3]:
                    if rec.run({'ops': start + [op]}):
                        expand(start + [op], shard['depth'] - 2)
            else:
                expand(start, shard['depth'])
        return
    frontier, known = [START[shard['first']]], set()
    rec.run({'ops': frontier[0]})
    for _ in range(shard['depth'] - 3 if START[shard['first']] else shard['depth']):
        following = []
        for ops in frontier:
            for op in menu(replay_model(ops)):
                path = ops + [op]
                rec.last = None
                if rec.run({'ops': path}) and rec.last not in known:
                    known.add(rec.last)
                    following.append(path)
        frontier = following
    rec.count('distinct-implementation-states', len(known))


class Model:
    def __init__(self):
        self.bundles, self.detached, self.counter, self.fresh, self.kept = [], [], 0, 0, {}

    def valid(self, bundle, zone):
        return zone in ZONES and zone not in [z for z, _ in bundle['trees']]

    def do(self, op):
        """Return False if the operation must be rejected."""
        name = op[0]
        if name == 'bundle':
            self.counter += 1
            self.bundles.append({'id': str(self.counter), 'trees': []})
            return True
        if name == 'attach':
            zone, label = self.detached[0]
            if not self.valid(self.bundles[op[1]], zone):
                return False
            self.bundles[op[1]]['trees'].append((zone, label))
            self.detached.pop()
            return True
        bundle = self.bundles[op[1]]
        if name in ('tree', 'add'):
            self.fresh += 1
            zone = op[2] or ''
            if not self.valid(bundle, zone):
                return False
            bundle['trees'].append((zone, f't{self.fresh}'))
        elif name == 'remove':
            del self.bundles[op[1]]
        elif name == 'bid':
            bundle['id'] = op[2]
        else:
            zone, label = bundle['trees'][op[2]]
            if name == 'detach':
                del bundle['trees'][op[2]]
                self.detached.append((zone, label))
            else:
                base, value = (None, op[3]) if name == 'zone' else (op[3].split('/') + [zone])[:2]
                if value != zone and not self.valid(bundle, value):
                    return False
                bundle['trees'][op[2]] = (value, label)
                if base:
                    bundle['id'] = base
        return True


def replay_model(ops):
    model = Model()
    for op in ops:
        model.do(op)
    return model


def menu(model):
    result = [['bundle']] if len(model.bundles) < 3 else []
    for i, bundle in enumerate(model.bundles):
        result += [['remove', i], ['bid', i, 'x' if bundle['id'] != 'x' else 'y']]
        if model.detached:
            result.append(['attach', i])
        if len(bundle['trees']) < 2:
            result += [['tree', i, z] for z in ZONES + (None,)] + [['add', i, z] for z in ZONES[:2]]
        if not i:
            result += [['tree', i, z] for z in BAD[:2]]
        for j, (zone, _) in enumerate(bundle['trees']):
            if not model.detached:
                result.append(['detach', i, j])
            result += [['zone', i, j, z] for z in ZONES] + [['sid', i, j, 's/' + z] for z in ZONES[1:]]
            if not i and not j:
                result += [['zone', i, j, z] for z in BAD] + [['sid', i, j, 's/all']]
            if not zone:
                result.append(['sid', i, j, 's'])
    return result


def fill(root, label):
    node = root.create_child(form=label, deprel='root')
    root.create_empty_child(form='E' + label).ord = '1.1'
    root.text = label
    return node


def case_noid(case, rec):
    """Bundles created without an id (by the public constructor) which get it later."""
    from udapi.core.bundle import Bundle
    from udapi.core.document import Document
    doc = Document()
    bundle = Bundle(document=doc)
    doc.bundles.append(bundle)
    name, zones = None, []
    for op in case['ops']:
        if op[0] == 'tree':
            if op[1] in zones or len(zones) == 2:
                return
            bundle.create_tree(op[1])
            zones.append(op[1])
        elif op[0] == 'id':
            bundle.bundle_id = name = op[1]
        elif op[1] >= len(zones):
            return
        elif op[0] == 'zone':
            if op[2] in zones:
                return
            bundle.trees[op[1]].zone = zones[op[1]] = op[2]
        else:
            bundle.trees[op[1]].remove()
            del zones[op[1]]
        rec.step()
    where = str(case)
    equal(bundle.bundle_id, name, 'bundle-ids', where)
    equal([t.zone for t in bundle], zones, 'trees-of-bundle', where)
    equal([t.sent_id for t in bundle], [(name or '?') + ('/' + z if z else '') for z in zones], 'sentence-id', where)
    rec.state(where)
    rec.trace()


def captured_output(func, *args, **kwargs):
    import contextlib
    import io
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        func(*args, **kwargs)
    return handle.getvalue()


def case_free(case, rec):
    """A tree whose zone and id are set before it is added to a bundle."""
    from udapi.core.bundle import Bundle
    from udapi.core.document import Document
    from udapi.core.root import Root
    root = Root()
    base, zone, where = '?', None, str(case)
    for name, value in case['ops']:
        if name == 'zone':
            root.zone = zone = value
        else:
            base = value
            root.sent_id = base + ('/' + zone if zone else '')
        rec.step()
        equal((root.zone, root.sent_id, root.address()), (zone,) + 2 * (base + ('/' + zone if zone else ''),), 'free-tree', where)
    doc = Document()
    if case['home'] == 'document':
        bundle = doc.create_bundle()
        base = '1'
    else:
        bundle = Bundle(document=doc)
    if case['home'] == 'bundle':
        bundle.bundle_id = base = 'b'
    bundle.add_tree(root)
    if case['home'] == 'later':
        bundle.bundle_id = base = 'b'
    rec.step()
    zone = zone or ''
    equal((root.zone, root.sent_id, root.address()), (zone,) + 2 * (base + ('/' + zone if zone else ''),), 'free-tree', where)
    require(root.bundle is bundle and bundle.trees == [root], 'free-tree', where)
    rec.state(where)
    rec.trace()


def case_api(case, rec):
    from mc.core import scratch
    with scratch() as folder:
        check_api(case, rec, str(folder))


def check_api(case, rec, folder):
    """All the ways to load, store and draw a document agree."""
    import os
    from mc.core import raises
    from udapi.core.document import Document
    doc, want, number = Document(), [], 0
    for index, (zones, newdoc) in enumerate(case['bundles'], 1):
        bundle = doc.create_bundle()
        for zone in zones:
            number += 1
            fill(bundle.create_tree(zone), f't{number}')
        bundle.trees[0].newdoc = f'd{index}' if newdoc else None
        want.append((str(index), [(zone, f't{number - len(zones) + i}') for i, zone in enumerate(zones, 1)]))
    text = doc.to_conllu_string()
    equal(doc.to_conllu_string(), text, 'storing-twice', str(case))
    path, other = os.path.join(folder, 'a.conllu'), os.path.join(folder, 'b.conllu')
    doc.store_conllu(path)
    with open(path, encoding='utf-8') as handle:
        equal(handle.read(), text, 'store-conllu', str(case))
    loaded = [Document(path), Document(), Document()]
    loaded[1].load_conllu(path)
    if text:
        loaded[2].from_conllu_string(text)
    for again in loaded:
        equal([(b.bundle_id, [(t.zone, t.text) for t in b]) for b in again.bundles], want, 'loaded-bundles', str(case))
        equal([bool(t.newdoc) for b in again for t in b.trees[:1]], [bool(newdoc) for _, newdoc in case['bundles']], 'loaded-newdoc', str(case))
        require(all(b.document is again for b in again), 'loaded-document', str(case))
        equal(again.to_conllu_string(), text, 'stored-loaded', str(case))
        again.store_conllu(other)
        with open(other, encoding='utf-8') as handle:
            equal(handle.read(), text, 'stored-loaded-file', str(case))
        rec.step()
    for options in ({}, {'attributes': 'form', 'print_sent_id': 0}):
        drawn = ''.join(captured_output(bundle.draw, color=0, print_doc_meta=0, **options) for bundle in doc)
        single = ''.join(captured_output(tree.draw, color=0, **options) for tree in doc.trees)
        equal(captured_output(doc.draw, color=0, print_doc_meta=0, **options), drawn, 'drawn-document', str(case))
        equal(drawn, single, 'drawn-bundles', str(case))
        equal(drawn.count('╼') + drawn.count('┾') + drawn.count('┮') + drawn.count('┶'), 2 * number, 'drawn-nodes', str(case))
    import re
    equal(re.sub('\x1b\\[\\d*m', '', str(doc)), captured_output(doc.draw, color=0), 'str-of-document', str(case))
    require('\x1b[' in str(doc) or not number, 'str-of-document-without-colors', str(case))
    equal([str(b) for b in doc], [f"bundle id='{name}'" for name, _ in want], 'str-of-bundle', str(case))
    os.rename(path, path + '.x')
    require(isinstance(raises(Document, path + '.x'), ValueError), 'unsupported-extension', str(case))
    rec.state(str(case))
    rec.trace()


def case_txt(case, rec):
    from mc.core import scratch
    with scratch() as folder:
        check_txt(case, rec, str(folder))


def check_txt(case, rec, folder):
    """Document('x.txt') has one tree without nodes for each line."""
    import os
    from udapi.core.document import Document
    path = os.path.join(folder, 'a.txt')
    lines = list(case['lines'])
    with open(path, 'w', encoding='utf-8') as handle:
        handle.write('\n'.join(lines) + ('\n' if lines and case['final'] else ''))
    if lines and not case['final'] and not lines[-1]:
        lines.pop()
    for options in ({}, {'ignore_empty_lines': True}, {'newdoc_if_empty_line': True}):
        doc = Document(path, **options)
        want = [line.rstrip() for line in lines if line or not options]
        equal([t.text for t in doc.trees], want, 'sentences-of-text', f'{case} {options}')
        equal([b.bundle_id for b in doc], [str(i) for i in range(1, len(want) + 1)], 'bundles-of-text', f'{case} {options}')
        equal(list(doc.nodes), [], 'nodes-of-text', f'{case} {options}')
        if 'newdoc_if_empty_line' in options:
            starts = [i > 0 and not lines[i - 1] for i, line in enumerate(lines) if line]
            equal([bool(t.newdoc) for t in list(doc.trees)[1:]], starts[1:], 'newdoc-of-text', f'{case} {options}')
        rec.step()
    rec.state(str(case))
    rec.trace()


def run_case(case, rec):
    if case.get('kind') in ('noid', 'free', 'api', 'txt'):
        return globals()['case_' + case['kind']](case, rec)
    from udapi.core.document import Document
    from udapi.core.root import Root
    doc, model, trees, detached = Document(), Model(), {}, []
    ops = case['ops']
    for number, op in enumerate(ops):
        name = op[0]
        fresh = model.fresh + 1
        ok = model.do(op)
        got = True
        try:
            if name == 'bundle':
                result = doc.create_bundle()
                require(result is doc.bundles[-1], 'created-bundle-is-not-the-last', str(ops))
            elif name == 'tree':
                trees[f't{fresh}'] = doc.bundles[op[1]].create_tree(op[2]) if op[2] is not None else doc.bundles[op[1]].create_tree()
                fill(trees[f't{fresh}'], f't{fresh}')
            elif name == 'add':
                root = Root(zone=op[2])
                fill(root, f't{fresh}')
                trees[f't{fresh}'] = root
                doc.bundles[op[1]].add_tree(root)
            elif name == 'remove':
                doc.bundles[op[1]].remove()
            elif name == 'bid':
                doc.bundles[op[1]].bundle_id = op[2]
            elif name == 'attach':
                doc.bundles[op[1]].add_tree(detached[0])
                detached.pop()
            else:
                tree = doc.bundles[op[1]].trees[op[2]]
                if name == 'detach':
                    tree.remove()
                    detached.append(tree)
                elif name == 'zone':
                    tree.zone = op[3]
                elif name == 'sid':
                    tree.sent_id = op[3]
        except Exception as exc:  # pylint: disable=broad-except
            got = False
            error = exc
        rec.step()
        require(got == ok, 'operation-rejected' if ok else 'invalid-operation-accepted', lambda: f'{ops[:number + 1]} {"" if got else repr(error)}')
        if number >= len(ops) - 2:
            check(doc, model, trees, str(ops[:number + 1]))
    rec.last = str([(b.number, b.bundle_id, [(t.zone, getattr(t, '_sent_id', None)) for t in b.trees]) for b in doc.bundles] + [(t.zone, getattr(t, '_sent_id', None)) for t in detached] + [getattr(doc, '_highest_bundle_id', None)])
    rec.state(rec.last)
    rec.trace()


def check(doc, model, trees, where):
    bundles = list(doc)
    equal(len(doc), len(model.bundles), 'number-of-bundles', where)
    require(doc.bundles == bundles and all(doc[i] is b for i, b in enumerate(bundles)), 'document-iteration', where)
    equal([b.bundle_id for b in bundles], [b['id'] for b in model.bundles], 'bundle-ids', where)
    equal([b.address() for b in bundles], [b['id'] for b in model.bundles], 'bundle-addresses', where)
    equal([b.number for b in bundles], list(range(1, len(bundles) + 1)), 'bundle-numbers', where)
    flat = []
    for bundle, want in zip(bundles, model.bundles):
        require(bundle.document is doc, 'bundle-document', where)
        equal([(t.zone, t.text) for t in bundle], want['trees'], 'trees-of-bundle', where)
        for tree, (zone, label) in zip(bundle, want['trees']):
            require(tree is trees[label] and tree.bundle is bundle and tree.document is doc, 'tree-links', where)
            sent_id = want['id'] + ('/' + zone if zone else '')
            equal((tree.sent_id, tree.address(), tree.descendants[0].address()), (sent_id, sent_id, sent_id + '#1'), 'sentence-id', where)
            require(bundle.get_tree(zone) is tree and bundle.has_tree(zone), 'get-tree', where)
            flat.append(label)
        for zone in ZONES:
            if zone not in [z for z, _ in want['trees']]:
                require(not bundle.has_tree(zone), 'has-tree-of-missing-zone', where)
                try:
                    bundle.get_tree(zone)
                except Exception:  # pylint: disable=broad-except
                    continue
                require(False, 'get-tree-of-missing-zone', where)
        equal([n.form for n in bundle.nodes], [label for _, label in want['trees']], 'bundle-nodes', where)
    require([id(t) for t in doc.trees] == [id(trees[x]) for x in flat], 'document-trees', where)
    equal([n.form for n in doc.nodes], flat, 'document-nodes', where)
    equal([n.form for n in doc.nodes_and_empty], [x for label in flat for x in (label, 'E' + label)], 'document-nodes-and-empty', where)
    for i, first in enumerate(model.bundles):
        for j, second in enumerate(model.bundles):
            for (zone, one) in first['trees']:
                for (zone2, two) in second['trees']:
                    if i != j and zone == zone2:
                        equal(trees[one].descendants[0].precedes(trees[two].descendants[0]), i < j, 'word-order-across-bundles', f'{where} {i} {j}')
    ids = [b['id'] for b in model.bundles if b['trees']]
    if len(set(ids)) == len(ids):
        from udapi.core.document import Document
        again = Document()
        text = doc.to_conllu_string()
        if text:
            again.from_conllu_string(text)
        equal([(b.bundle_id, [(t.zone, t.text) for t in b]) for b in again.bundles], [(b['id'], b['trees']) for b in model.bundles if b['trees']], 'bundles-after-saving-and-loading', where)
