"""C19: scenarios are parsed and executed, and blocks are called on the right parts of documents."""
import atexit
import io
import itertools
import os
import runpy
import sys
import types
from unittest import mock

from mc.core import require, equal, raises, Fail
from mc import trees
from mc.probes import probe

TITLE = ('All short scenarios of recording blocks and parameters; all combinations of overridden methods, zones, treatment of empty trees and layouts of documents; '
         'all ways to remove parts of the document while it is processed; all option sets of the command line; vs. a reference model of the execution')
ASSUMPTIONS = ['the order of the tests of the zone and of emptiness is not specified (deleting or failing is checked with zones=all)']
PROBE, SOURCE = '.mc.probes.Probe', '.mc.probes.Source'
TOKENS = (PROBE, SOURCE, 'docs=2', 'docs=3', 'a=1', 'a=x=y', 'b=', 'a=0', 'b=1.5', 'b=\u00b2')
METHODS = ('process_coref_entity', 'process_coref_mention', 'process_bundle', 'process_tree', 'process_node', 'process_empty_node')
ZONES = ('all', '', 'en', 'en,cs', 'cs,en', ',en', 'x', 'e')
LAYOUTS = ((), ('',), ('en',), ('', 'en'), ('en', 'cs'), ('cs', '', 'en'))
FLAGS = ('-s', '-T', '-H', '-A', '-C', '-M', '-N')
INPUT = '# sent_id = s1\n1\ta\t_\t_\t_\t_\t0\t_\t_\t_\n\n# sent_id = s2\n1\tb\t_\t_\t_\t_\t0\t_\t_\t_\n\n'


def BOUNDS(tier):
    big = tier != 'quick'
    return {'tokens': 5 if big else 4, 'bundles': 2, 'trees_per_bundle': 3, 'overridden_methods': 6, 'zones': list(ZONES), 'removed_trees': 6 if big else 5, 'removed_nodes': 5 if big else 4,
            'removed_empty_nodes': 5 if big else 4, 'removed_mentions': 5 if big else 4}


def block_names():
    """All modules with blocks."""
    import udapi.block
    top = os.path.dirname(udapi.block.__file__)
    for folder, _, files in sorted(os.walk(top)):
        for name in sorted(files):
            if name.endswith('.py') and name != '__init__.py':
                yield os.path.relpath(os.path.join(folder, name[:-3]), top).replace(os.sep, '.')


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'scenario', 'length': n, 'first': f} for n in range(1, bounds['tokens'] + 1) for f in range(len(TOKENS))]
    result += [{'kind': 'dispatch', 'first': i, 'second': j} for i in range(len(LAYOUTS)) for j in range(-1, len(LAYOUTS))]
    result += [{'kind': 'removal', 'what': what, 'limit': bounds['removed_' + what]} for what in ('trees', 'nodes', 'empty_nodes', 'mentions')]
    result += [{'kind': 'options'}, {'kind': 'blocks'}, {'kind': 'invalid'}]
    return result[::-1]


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'scenario':
        for rest in itertools.product(range(len(TOKENS)), repeat=shard['length'] - 1):
            rec.run({'kind': kind, 'tokens': (shard['first'],) + rest})
    elif kind == 'dispatch':
        layouts = [LAYOUTS[shard['first']]] + ([LAYOUTS[shard['second']]] if shard['second'] >= 0 else [])
        total = sum(map(len, layouts))
        for sizes in itertools.product((0, 1, 2), repeat=total) if total < 4 else itertools.product((0, 2), repeat=total):
            rec.run({'kind': kind, 'layouts': layouts, 'sizes': sizes})
    elif kind == 'removal':
        for size in range(1, shard['limit'] + 1):
            for removed in itertools.product((0, 1), repeat=size):
                if shard['what'] == 'trees':
                    for border in range(size + 1):
                        for how in ('method', 'option', 'super'):
                            rec.run({'kind': kind, 'what': 'trees', 'removed': removed, 'border': border, 'how': how})
                elif shard['what'] == 'nodes':
                    for heads in trees.head_vectors(size):
                        for how in ('rehang', 'delete', 'create', 'super'):
                            rec.run({'kind': kind, 'what': 'nodes', 'removed': removed, 'heads': heads, 'how': how})
                else:
                    for both in (0, 1):
                        rec.run({'kind': kind, 'what': shard['what'], 'removed': removed, 'both': both})
    elif kind == 'options':
        for number in range(2 ** len(FLAGS)):
            for extra in ((), ('x=1',), ('x=1', 'util.See')):
                rec.run({'kind': kind, 'flags': [f for i, f in enumerate(FLAGS) if number >> i & 1], 'extra': extra})
        for status in ('ok', 'error', 'gc-ok', 'gc-error', 'pipe'):
            rec.run({'kind': 'status', 'status': status})
    elif kind == 'blocks':
        for name in block_names():
            rec.run({'kind': kind, 'name': name})
    elif kind == 'invalid':
        rec.run({'kind': kind})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()
    rec.state(str(case))


# ---------------------------------------------------------------- scenarios
def run(tokens):
    from udapi.core.run import Run
    return Run(types.SimpleNamespace(scenario=list(tokens))).execute()


def case_scenario(case, rec):
    tokens = [TOKENS[i] for i in case['tokens']]
    where = str(tokens)
    del probe.LOG[:]
    stdin = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(INPUT.encode()), encoding='utf-8')
    try:
        if '=' in tokens[0]:
            require(isinstance(raises(run, tokens), RuntimeError), 'parameter-without-block', where)
            equal(probe.LOG, [], 'calls', where)
            return
        result = run(tokens)
    finally:
        sys.stdin = stdin
    # the model
    blocks = []
    for token in tokens:
        if '=' in token:
            name, value = token.split('=', 1)
            blocks[-1][1][name] = int(value) if value and all(c in '0123456789' for c in value) else value
        else:
            blocks.append([token, {}])
    log = []
    readers = [i for i, (name, _) in enumerate(blocks) if name == SOURCE]
    for name, parameters in blocks:
        if name == SOURCE:
            parameters.setdefault('docs', 1)
        log.append(('new', 'Probe', dict(parameters)))
    log += [('start', i) for i in range(len(blocks))]
    left = {i: blocks[i][1]['docs'] for i in readers}
    while True:
        size, mark = (0, None) if readers else (2, None)
        for i, (name, _) in enumerate(blocks):
            log.append(('document', i, mark, size))
            if name == SOURCE:
                if left[i] > 0:
                    size += 1
                left[i] -= 1
                mark = (mark or ()) + (i,)
        if all(n <= 0 for n in left.values()):
            break
    log += [('end', i) for i in range(len(blocks))]
    equal(probe.LOG, log, 'calls', where)
    got = [(name, getattr(block, 'kwargs', None)) for name, block, _ in result]
    equal(got[0 if readers else 1:], [(name, parameters) for name, parameters in blocks], 'blocks', where)
    require(readers or got[0][0] == 'read.Conllu', 'default-reader', where)


def case_invalid(case, rec):
    from udapi.core.run import Run, create_block
    require(isinstance(raises(Run, types.SimpleNamespace(scenario=[])), ValueError), 'empty-scenario', '')
    require(isinstance(raises(Run, types.SimpleNamespace(scenario='util.See')), TypeError), 'scenario-type', '')
    exc = raises(run, ['util.Xyz'])
    require(isinstance(exc, ModuleNotFoundError) and 'util.Eval' in str(exc) and 'util.Xyz' in str(exc), 'unknown-block', repr(exc))
    require(isinstance(raises(run, ['xyz.Xyz']), ModuleNotFoundError), 'unknown-package', '')
    exc = raises(run, [PROBE, PROBE, 'fail=yes', PROBE])
    require(isinstance(exc, ZeroDivisionError), 'exception-lost', repr(exc))
    block = create_block('util.Eval', node='pass', zones='en')
    equal((type(block).__name__, block.zones), ('Eval', 'en'), 'create-block', '')


def case_blocks(case, rec):
    """Every block can be created by its name, unless it needs parameters or missing modules, and it rejects unknown parameters."""
    import importlib
    from udapi.core.block import Block
    from udapi.core.run import create_block
    with mock.patch('sys.stderr', io.StringIO()):
        try:
            module = importlib.import_module('udapi.block.' + case['name'])
        except ImportError:
            return
    last = case['name'].split('.')[-1]
    classes = [c for c in vars(module).values() if isinstance(c, type) and issubclass(c, Block) and c.__name__.lower() == last and c.__module__ == module.__name__]
    if not classes:
        return
    name = '.'.join(case['name'].split('.')[:-1] + [classes[0].__name__])
    with mock.patch('logging.Logger.warning', lambda *args: None):
        exc = raises(create_block, name)
        if exc is None:
            block = create_block(name)
            require(type(block) is classes[0], 'wrong-class', name)
            equal(block.block_name(), name, 'block-name', name)
        elif isinstance(exc, (ImportError, FileNotFoundError, OSError)):
            return
        elif not (isinstance(exc, TypeError) and 'missing' in str(exc)) and not isinstance(exc, (ValueError, RuntimeError)):
            raise Fail('cannot-create-block', f'{name}: {exc!r}')
        exc = raises(create_block, name, no_such_parameter=1)
        require(isinstance(exc, TypeError), 'unknown-parameter-accepted', f'{name}: {exc!r}')
        require('no_such_parameter' in str(exc) or 'missing' in str(exc), 'unknown-parameter-message', f'{name}: {exc!r}')


# ---------------------------------------------------------------- dispatch
def make_document(layouts, sizes):
    """Trees have `size` words, and `size - 1` empty nodes and mentions of two entities."""
    from udapi.core.document import Document
    doc = Document()
    sizes = iter(sizes)
    names = {}
    entities = []
    for b, zones in enumerate(layouts, 1):
        bundle = doc.create_bundle()
        for zone in zones:
            root = bundle.create_tree(zone)
            size = next(sizes)
            for i in range(size):
                node = root.create_child(form='w')
                names[node] = f'{b}/{zone}/{i + 1}'
            for i in range(size - 1):
                names[root.descendants[-1].create_empty_child(deprel='dep', form='e')] = f'{b}/{zone}/e{i + 1}'
            names[root] = f'{b}/{zone}'
    return doc, names


def add_mentions(doc):
    """Create two entities with mentions in all trees of one zone."""
    for eid, position in (('e1', 0), ('e2', -1)):
        entity = None
        nonempty = [t for t in doc.trees if t.descendants]
        for tree in nonempty:
            if tree.zone == nonempty[0].zone:
                entity = entity or doc.create_coref_entity(eid)
                entity.create_mention(words=[tree.descendants[position]])


def make_block(methods, log, names, inherited=False):
    """A block class which overrides the given methods, directly or in its parent class."""
    from udapi.core.block import Block

    def name(thing):
        kind = type(thing).__name__
        if kind == 'CorefEntity':
            return thing.eid
        if kind == 'CorefMention':
            return thing.entity.eid + ':' + names[thing.head]
        if kind == 'Bundle':
            return thing.number
        return names[thing]
    body = {}
    for method in methods:
        body[method] = (lambda m: lambda self, thing: log.append((m, name(thing))))(method)
    cls = type('Tested', (Block,), body)
    return type('Child', (cls,), {}) if inherited else cls


def in_zones(zone, zones):
    return zones == 'all' or zone in zones.split(',')


def case_dispatch(case, rec):
    from udapi.core.block import Block
    layouts, sizes = case['layouts'], case['sizes']
    doc, names = make_document(layouts, sizes)
    mention_doc, mention_names = make_document(layouts, sizes)
    add_mentions(mention_doc)
    structure, position = [], 0
    for b, zones in enumerate(layouts, 1):
        structure.append((b, [(zone, sizes[position + i]) for i, zone in enumerate(zones)]))
        position += len(zones)
    rec.step(64 * len(ZONES))
    for count in range(len(METHODS) + 1):
        for methods in itertools.combinations(METHODS, count):
            coref = {'process_coref_entity', 'process_coref_mention'} & set(methods)
            for zones in ZONES:
                for empties in ('process', 'skip'):
                    where = f'{case} {methods} zones={zones} if_empty_tree={empties}'
                    log = []
                    block = make_block(methods, log, mention_names if coref else names, inherited=zones == 'en')(zones=zones, if_empty_tree=empties)
                    if not methods:
                        require(raises(block.run, doc) is not None, 'block-without-methods', where)
                        continue
                    block.run(mention_doc if coref else doc)
                    want = []
                    if coref:
                        nonempty = [(b, z, s) for b, content in structure for z, s in content if s]
                        nonempty = [x for x in nonempty if x[1] == nonempty[0][1]]
                        for eid in ('e1', 'e2') if nonempty else ():
                            if 'process_coref_entity' in methods:
                                want.append(('process_coref_entity', eid))
                            else:
                                want += [('process_coref_mention', f'{eid}:{b}/{z}/{1 if eid == "e1" else s}') for b, z, s in nonempty]
                        got = [e for e in log if 'coref' in e[0]]
                        equal(sorted(got), sorted(want), 'coreference-calls', where)
                        require(log[:len(got)] == got, 'coreference-first', where)
                        if 'process_coref_entity' not in methods:
                            for eid in ('e1', 'e2'):
                                equal([e for e in got if e[1].startswith(eid)], [e for e in want if e[1].startswith(eid)], 'mention-order', where)
                        log = log[len(got):]
                    want = []
                    for b, content in structure:
                        if 'process_bundle' in methods:
                            want.append(('process_bundle', b))
                            continue
                        if not set(methods) & {'process_tree', 'process_node', 'process_empty_node'}:
                            continue
                        for zone, size in content:
                            if not in_zones(zone, zones) or not size and empties == 'skip':
                                continue
                            if 'process_tree' in methods:
                                want.append(('process_tree', f'{b}/{zone}'))
                                continue
                            if 'process_node' in methods:
                                want += [('process_node', f'{b}/{zone}/{i + 1}') for i in range(size)]
                            if 'process_empty_node' in methods:
                                want += [('process_empty_node', f'{b}/{zone}/e{i + 1}') for i in range(size - 1)]
                    equal(log, want, 'calls', where)
    # inherited default methods called explicitly
    for zones in ZONES:
        log = []

        class Explicit(Block):
            """Call the default methods."""
            def process_bundle(self, bundle):
                log.append(bundle.number)
                super().process_bundle(bundle)

            def process_tree(self, tree):
                log.append(names[tree])
                super().process_tree(tree)

            def process_node(self, node):
                log.append(names[node])
        Explicit(zones=zones).run(doc)
        want = []
        for b, content in structure:
            want.append(b)
            for zone, size in content:
                if in_zones(zone, zones):
                    want += [f'{b}/{zone}'] + [f'{b}/{zone}/{i + 1}' for i in range(size)]
        equal(log, want, 'default-methods', f'{case} {zones}')
    # order of the hooks
    log = []

    class Hooks(Block):
        """Record all hooks."""
        def process_start(self):
            log.append('start')

        def before_process_document(self, document):
            log.append(('before', document is doc))

        def process_tree(self, tree):
            log.append('tree')

        def after_process_document(self, document):
            log.append(('after', document is doc))

        def process_end(self):
            log.append('end')
    Hooks().run(doc)
    equal(log, ['start', ('before', True)] + ['tree'] * len(sizes) + [('after', True), 'end'], 'hooks', str(case))
    # failing and deleting
    empty = [s for s in sizes if not s]
    exc = raises(make_block(('process_tree',), [], names)(if_empty_tree='fail').run, doc)
    require((exc is not None) == bool(empty), 'if-empty-fail', f'{case} {exc!r}')
    exc = raises(make_block(('process_tree',), [], names)(if_empty_tree='nonsense').run, doc)
    require((isinstance(exc, ValueError)) == bool(empty), 'if-empty-invalid', f'{case} {exc!r}')
    log = []
    make_block(('process_tree',), log, names)(if_empty_tree='delete').run(doc)
    want = [f'{b}/{zone}' for b, content in structure for zone, size in content if size]
    equal([x[1] for x in log], want, 'if-empty-delete-calls', str(case))
    equal([names[t] for t in doc.trees], want, 'if-empty-delete', str(case))


# ---------------------------------------------------------------- removing parts while they are processed
def case_removal(case, rec):
    from udapi.core.block import Block
    removed, what, where = case['removed'], case['what'], str(case)
    size = len(removed)
    log = []
    if what == 'trees':
        zones = list('abcdef'[:size])
        doc, names = make_document([zones[:case['border']], zones[case['border']:]], [0 if r else 1 for r in removed])
        things = list(doc.trees)
        doomed = {t for t, r in zip(things, removed) if r}

        class Tested(Block):
            """Remove trees."""
            def process_tree(self, tree):
                log.append(tree)
                if tree in doomed:
                    tree.remove()
        if case['how'] == 'super':
            class Tested(Tested):  # pylint: disable=function-redefined
                """Call the default method for bundles."""
                def process_bundle(self, bundle):
                    super().process_bundle(bundle)
        Tested(if_empty_tree='delete' if case['how'] == 'option' else 'process').run(doc)
        equal([names[x] for x in log], [names[x] for x in things if case['how'] != 'option' or x not in doomed], 'visited', where)
        equal([names[x] for x in doc.trees], [names[x] for x in things if x not in doomed], 'remaining', where)
    elif what == 'nodes':
        nodes = trees.build(case['heads'], in_doc=True)
        root, things, how = nodes[0], nodes[1:], case['how']
        doomed = {n for n, r in zip(things, removed) if r}

        class Tested(Block):
            """Remove or create nodes."""
            def process_node(self, node):
                log.append(node)
                if node in doomed:
                    if how == 'create':
                        node.create_child(form='new').shift_before_node(node)
                        node.create_child(form='new').shift_after_node(node)
                    elif how in ('rehang', 'super'):
                        node.remove(children='rehang')
                    elif node in root.descendants:
                        node.remove()
        if how == 'super':
            class Tested(Tested):  # pylint: disable=function-redefined
                """Call the default method for trees."""
                def process_tree(self, tree):
                    super().process_tree(tree)
        Tested().run(root.document)
        equal(log, things, 'visited', where)
        trees.check_tree(root)
        if how == 'create':
            equal([n for n in root.descendants if n in things], things, 'remaining', where)
            equal(len(root.descendants), size + 2 * sum(removed), 'remaining', where)
        elif how != 'delete':
            equal(root.descendants, [n for n in things if n not in doomed], 'remaining', where)
    elif what == 'empty_nodes':
        nodes = trees.build((0,), in_doc=True)
        root = nodes[0]
        things = [nodes[1].create_empty_child(deprel='dep', form=f'e{i}') for i in range(size)]
        doomed = {id(n) for n, r in zip(things, removed) if r}

        class Tested(Block):
            """Remove empty nodes."""
            if case['both']:
                def process_node(self, node):
                    log.append('word')

            def process_empty_node(self, node):
                log.append(node.form)
                if id(node) in doomed:
                    node.remove()
        Tested().run(root.document)
        equal(log, ['word'] * case['both'] + [f'e{i}' for i in range(size)], 'visited', where)
        equal([e.form for e in root.empty_nodes], [f'e{i}' for i, r in enumerate(removed) if not r], 'remaining', where)
    else:
        nodes = trees.build((0,) * size, in_doc=True)
        doc = nodes[0].document
        entity = doc.create_coref_entity('e1')
        things = [entity.create_mention(words=[n]) for n in nodes[1:]]
        doomed = {m for m, r in zip(things, removed) if r}

        class Tested(Block):
            """Remove mentions."""
            def process_coref_mention(self, mention):
                log.append(mention.head.form)
                if mention in doomed:
                    mention.remove()
        if case['both']:
            class Tested(Tested):  # pylint: disable=function-redefined
                """Call the default method for entities."""
                def process_coref_entity(self, entity):
                    super().process_coref_entity(entity)
        Tested().run(doc)
        equal(log, [n.form for n in nodes[1:]], 'visited', where)
        equal([m.head.form for m in entity.mentions], [n.form for n, r in zip(nodes[1:], removed) if not r], 'remaining', where)


# ---------------------------------------------------------------- the command line
def udapy():
    import udapi
    return os.path.join(os.path.dirname(os.path.dirname(udapi.__file__)), 'bin', 'udapy')


def case_options(case, rec):
    import udapi.core.run
    seen = []

    class Stub:
        """Record the scenario."""
        def __init__(self, args):
            seen.append(list(args.scenario))

        def execute(self):
            """Do nothing."""
            seen.append('executed')
    argv = ['udapy', '--gc'] + list(case['flags']) + [x for e in case['extra'] for x in ('-X', e)] + ['util.Eval', 'node=x', 'color=2']
    hook = sys.excepthook
    try:
        with mock.patch.object(sys, 'argv', argv), mock.patch.object(udapi.core.run, 'Run', Stub), mock.patch.object(atexit, 'register', lambda *args: None):
            runpy.run_path(udapy(), run_name='__main__')
    finally:
        sys.excepthook = hook
    want = ['util.Eval', 'node=x', 'color=2']
    added = {'-s': ['write.Conllu'], '-T': ['write.TextModeTrees', 'color=1'], '-H': ['write.TextModeTreesHtml', 'color=1'],
             '-A': ['attributes=form,lemma,upos,xpos,feats,deprel,misc'], '-C': ['print_comments=1'], '-M': ['marked_only=1'], '-N': ['color=0']}
    for flag in FLAGS:
        if flag in case['flags']:
            want += added[flag]
    equal(seen, [want + list(case['extra']), 'executed'], 'scenario', str(case))


def case_status(case, rec):
    """The exit status and output of the real program."""
    import subprocess
    status = case['status']
    command = [sys.executable, udapy(), '-q'] + (['--gc'] if status.startswith('gc') else []) + ['-s']
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(udapy())), PYTHONHASHSEED='0')
    if status == 'pipe':
        # the reader of the output ends early
        process = subprocess.Popen(command, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        process.stdout.close()
        process.stdin.write(INPUT.encode() * 5000)
        process.stdin.close()
        message = process.stderr.read().decode()
        process.stderr.close()
        process.wait()
        require('Traceback' not in message, 'broken-pipe', message)
        return
    if status.endswith('error'):
        command += ['util.Eval', 'node=1/0']
    result = subprocess.run(command, input=INPUT.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, check=False)
    if status.endswith('ok'):
        equal((result.returncode, result.stdout.decode()), (0, INPUT.replace('s1\n', 's1\n# text = a\n').replace('s2\n', 's2\n# text = b\n')), 'output', str(case))
    else:
        require(result.returncode != 0 and b'ZeroDivisionError' in result.stderr, 'error-not-reported', f'{case} {result}')
