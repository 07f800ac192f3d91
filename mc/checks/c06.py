"""C06: FEATS/MISC (and mention.other): dict view and string view stay synchronized under all histories."""
import itertools

from mc.core import Fail, require, equal, raises

TITLE = ('All operation histories (reads of both views are operations too, as the synchronization is lazy) of bounded '
         'length over node.feats, node.misc, mwt.misc, stand-alone and mention.other mappings vs. a plain dict model')
ASSUMPTIONS = ['values are non-empty strings or True; get()/pop() with an explicit default are not modelled',
               'an operation which changes nothing may keep or normalize the original string']
INITS = [None, '', '_', 'B=1|a=2', 'A=1', 'flag|C=x=y', 'Z=1|A=1|M', {'B': '1'}, {}, 'Zz=9|b=2|A=1|k10=x|K9=y|B=3|c=4|D=5|e=6|F=7|g=8|H=9']
KEYS = 'ABa'
HOSTS = ['feats', 'misc', 'mwt', 'plain', 'other']


def BOUNDS(tier):
    return {'history_length': 3 if tier == 'quick' else 4, 'initial_values': len(INITS), 'hosts': HOSTS,
            'operations': len(operations())}


def operations():
    ops = [['str'], ['dict'], ['len'], ['clear'], ['copy'], ['popitem'], ['eqstr'], ['eqdict'], ['write'],
           ['share', 0], ['share', 1]]
    for key in KEYS:
        ops += [['in', key], ['get', key], ['del', key], ['set', key, '1'], ['set', key, '2'], ['set', key, None]]
    ops += [['set', 'A', ''], ['set', 'flag', True], ['set', 'B', 'x=y'], ['setdefault', 'B', '5'], ['setdefault', 'A', '6'],
            ['update', {'B': '9', 'A': '8'}], ['update', {}], ['pop', 'A'], ['pop', 'B']]
    ops += [['assign', value] for value in (None, '', '_', 'b=1|A=3', {'a': '7', 'A': '8'}, {}, 'same')]
    return ops


def shards(tier):
    result = []
    for host in HOSTS:
        for i, _ in enumerate(INITS):
            for part in range(4):
                result.append({'host': host, 'init': i, 'length': BOUNDS(tier)['history_length'], 'part': part})
    return result


def run_shard(shard, rec):
    ops = operations()
    if shard['host'] == 'feats':
        ops += [['set', 'Number', 'Sing'], ['set', 'Number', 'Plur'], ['set', 'Number', 'Plur,Sing']]
    first = ops[shard['part']::4]
    rec.run({'host': shard['host'], 'init': shard['init'], 'ops': []})
    length = shard['length']
    for one in first:
        for rest in itertools.product(ops, repeat=length - 1):
            rec.run({'host': shard['host'], 'init': shard['init'], 'ops': [one, *rest]})


def sep(host):
    return (',', ':', '') if host == 'other' else ('|', '=', '_')


def translate(host, value):
    """Values are written in the FEATS/MISC syntax; mention.other uses other separators."""
    if host == 'other' and isinstance(value, str):
        return '' if value == '_' else value.replace('|', ',').replace('=', ':')
    return value


def parse(host, string):
    items, eq, nothing = sep(host)
    result = {}
    if string == nothing or string == '':
        return result
    for item in string.split(items):
        name, found, value = item.partition(eq)
        result[name] = value if found else True
    return result


def serialize(host, mapping):
    items, eq, nothing = sep(host)
    pairs = sorted(mapping.items(), key=lambda pair: pair[0].lower())
    return items.join(k if v is True else f'{k}{eq}{v}' for k, v in pairs) or nothing


class Host:
    """Access to the mapping via its owner."""
    def __init__(self, host, init):
        self.host = host
        self.plain = None
        self.sharing = []
        from udapi.core.root import Root
        root = Root()
        if host == 'feats':
            self.node = root.create_child(form='w', feats=init)
        elif host == 'misc':
            self.node = root.create_child(form='w', misc=init)
        elif host == 'mwt':
            words = [root.create_child(form='a'), root.create_child(form='b')]
            self.mwt = root.create_multiword_token(words, 'ab', misc=init)
        elif host == 'plain':
            from udapi.core.dualdict import DualDict
            self.plain = DualDict(init)
        else:
            from udapi.core.coref import CorefMention
            self.mention = CorefMention([root.create_child(form='a')])
            self.mention.other = init

    def get(self):
        if self.host == 'feats':
            return self.node.feats
        if self.host == 'misc':
            return self.node.misc
        if self.host == 'mwt':
            return self.mwt.misc
        if self.host == 'plain':
            return self.plain
        return self.mention.other

    def assign(self, value):
        if self.host == 'feats':
            self.node.feats = value
        elif self.host == 'misc':
            self.node.misc = value
        elif self.host == 'mwt':
            self.mwt.misc = value
        elif self.host == 'plain':
            self.plain.set_mapping(value)
        else:
            self.mention.other = value


class Model:
    """mapping + the exact string if it is determined (raw), or two possibilities."""
    def __init__(self, host, value):
        self.host = host
        self.assign(value)

    def assign(self, value):
        nothing = sep(self.host)[2]
        if isinstance(value, dict):
            self.mapping = dict(value)
            self.strings = {serialize(self.host, self.mapping)}
        else:
            raw = value if value else nothing
            self.mapping = parse(self.host, raw)
            self.strings = {raw}

    def set(self, key, value):
        before = dict(self.mapping)
        if value is None or value == '':
            self.mapping.pop(key, None)
        else:
            self.mapping[key] = value
        if before == self.mapping:
            self.strings = self.strings | {serialize(self.host, self.mapping)}
        else:
            self.strings = {serialize(self.host, self.mapping)}

    def clear(self):
        self.assign(None)


def run_case(case, rec):
    host = case['host']
    init = translate(host, INITS[case['init']])
    target = Host(host, init)
    model = Model(host, init)
    for i, oper in enumerate(case['ops']):
        step(target, model, oper, lambda: f'{host} init={init!r} after {case["ops"][:i + 1]}')
        rec.step()
    final(target, model, lambda: f'{host} init={init!r} after {case["ops"]}')
    rec.trace()
    rec.state((host, tuple(sorted((k, str(v)) for k, v in model.mapping.items())), tuple(sorted(model.strings)),
               tuple(o[0] for o in case['ops'][-1:])))


def check_str(mapping, model, where):
    got = str(mapping)
    require(got in model.strings, 'string-view', lambda: f'{where()}: got {got!r} want {model.strings}')
    # Once printed, the string must not change without a further modification.
    model.strings = {got}


def check_dict(mapping, model, where):
    got = dict(mapping)
    require(got == model.mapping, 'dict-view', lambda: f'{where()}: got {got!r} want {model.mapping}')


def final(target, model, where):
    mapping = target.get()
    check_dict(mapping, model, where)
    require(len(mapping) == len(model.mapping), 'length', where)
    for key in ('A', 'B', 'a', 'flag', 'nonexistent', '_', ''):
        require(mapping[key] == model.mapping.get(key, ''), 'getitem', lambda: f'{where()} key {key!r}: {mapping[key]!r}')
        require((key in mapping) == (key in model.mapping), 'contains', lambda: f'{where()} key {key!r}')
    if target.host == 'feats':
        number = model.mapping.get('Number', '').split(',')
        require(bool(mapping.is_singular()) == ('Sing' in number) and bool(mapping.is_plural()) == ('Plur' in number),
                'grammatical-number', lambda: f'{where()}: {number} {mapping.is_singular()} {mapping.is_plural()}')
    check_str(mapping, model, where)
    require(parse(target.host, str(mapping)) == model.mapping, 'views-disagree', where)
    if target.host == 'plain':
        from udapi.core.dualdict import DualDict
        require(isinstance(raises(mapping.set_mapping, 5), ValueError), 'unsupported-type', where)
        check_dict(mapping, model, where)
        require(isinstance(raises(lambda: DualDict(str(mapping), A='1')), ValueError), 'ambiguous-constructor', where)
        check_dict(DualDict(**model.mapping), model, where)
        check_str(DualDict(**model.mapping), Model('plain', model.mapping), where)
    for other, want in target.sharing:
        mapping['A'] = 'changed'
        mapping['new'] = 'x'
        require(dict(other.get()) == want, 'other-node-changed', where)


def step(target, model, oper, where):
    mapping = target.get()
    name, args = oper[0], oper[1:]
    if name == 'str':
        check_str(mapping, model, where)
    elif name == 'dict':
        check_dict(mapping, model, where)
    elif name == 'len':
        require(len(mapping) == len(model.mapping), 'length', where)
        require(sorted(mapping) == sorted(model.mapping), 'keys', where)
    elif name == 'in':
        require((args[0] in mapping) == (args[0] in model.mapping), 'contains', where)
    elif name == 'get':
        require(mapping[args[0]] == model.mapping.get(args[0], ''), 'getitem', lambda: f'{where()} {mapping[args[0]]!r}')
    elif name == 'clear':
        mapping.clear()
        model.clear()
    elif name == 'copy':
        copied = mapping.copy()
        require(dict(copied) == model.mapping and str(copied) in model.strings, 'copy', where)
        copied['A'] = 'changed'
        copied['new'] = 'x'
    elif name == 'share':
        # the mapping of this node is assigned to another node which has none (or passed to its constructor)
        other = Host(target.host, None if args[0] else mapping)
        if args[0]:
            other.assign(mapping)
        target.sharing.append((other, dict(model.mapping)))
        other = Host(target.host, None if args[0] else mapping)
        if args[0]:
            other.assign(mapping)
        other.get()['A'] = 'changed'
        other.get()['new'] = 'x'
        del other.get()['B']
    elif name == 'eqstr':
        if target.host != 'other':
            require(mapping == str(mapping) and not mapping == 'no=such', 'equals-string', where)
            require(str(mapping) in model.strings, 'string-view', lambda: f'{where()}: {str(mapping)!r} {model.strings}')
            model.strings = {str(mapping)}
    elif name == 'eqdict':
        require(mapping == dict(model.mapping), 'equals-dict', where)
    elif name == 'popitem':
        if model.mapping:
            key, value = mapping.popitem()
            require(model.mapping.get(key) == value, 'popitem', where)
            model.set(key, None)
        else:
            require(isinstance(raises(mapping.popitem), KeyError), 'popitem-empty', where)
    elif name == 'del':
        del mapping[args[0]]
        model.set(args[0], None)
    elif name == 'set':
        value = translate(target.host, args[1]) if args[0] == 'B' else args[1]
        mapping[args[0]] = value
        model.set(args[0], value)
    elif name == 'setdefault':
        if target.host == 'other':
            return
        got = mapping.setdefault(*args)
        if args[0] not in model.mapping:
            model.set(*args)
        require(got == model.mapping[args[0]], 'setdefault', where)
    elif name == 'update':
        mapping.update(args[0])
        for key, value in args[0].items():
            model.set(key, value)
    elif name == 'pop':
        want = model.mapping.get(args[0], '')
        require(mapping.pop(args[0]) == want, 'pop', where)
        model.set(args[0], None)
    elif name == 'assign':
        value = translate(target.host, args[0])
        if value == 'same':
            other = dict(model.mapping)
            target.assign(mapping)
            model.assign(other)
        else:
            target.assign(value)
            model.assign(value)
            if isinstance(value, dict):
                target.get()['Q'] = 'only here'
                require('Q' not in value, 'assigned-dict-is-aliased', where)
                model.set('Q', 'only here')
    elif name == 'write':
        # the writer prints the string view without forcing any deserialization
        if target.host in ('feats', 'misc'):
            import io
            require(str(mapping) in model.strings, 'string-view', where)
            model.strings = {str(mapping)}
    else:
        raise AssertionError(name)
