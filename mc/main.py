"""Entry point: run one check (all shards, in parallel), or replay one recorded case."""
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
from mc import core  # noqa: E402
sys.path.insert(0, core.REPO)
warnings.simplefilter('ignore')
import udapi.core.run  # noqa: E402,F401  (imported once, before the workers are forked)


def load_known(prop):
    """Known findings of this property: signature (+ optionally exact case) -> description."""
    known = []
    path = os.path.join(core.VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line and not line.startswith('#'):
                entry = json.loads(line)
                if entry.get('property') == prop and entry.get('status') == 'known':
                    known.append(entry)
    return known


def is_known(known, violation):
    for entry in known:
        if entry['signature'] == violation['signature'] and \
                ('case' not in entry or entry['case'] == violation['case']):
            return entry
    return None


def replay(path):
    data = json.load(open(path, encoding='utf-8'))
    module = importlib.import_module('mc.checks.' + data['property'].lower())
    core.worker_init()
    rec = core.Rec(module)
    with core.workdir():
        if data.get('case') is None:
            module.run_shard(data['shard'], rec)
        else:
            rec.run(data['case'])
    for violation in rec.violations:
        print(violation['signature'])
        print(violation['detail'])
    print('VIOLATED' if rec.violations else 'HELD')
    return 1 if rec.violations else 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    module_name = 'mc.checks.' + prop.lower()
    module = importlib.import_module(module_name)
    shards = module.shards(tier)
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    states, transitions, traces, cases = set(), 0, 0, 0
    counters, samples, violations, per_sig = {}, [], [], {}
    complete = True
    known = load_known(prop)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs, initializer=core.worker_init) as pool:
        for res in pool.imap_unordered(core.worker, [(module_name, s) for s in shards]):
            states |= res['states']
            transitions += res['transitions']
            traces += res['traces']
            cases += res['cases']
            for key, val in res['counters'].items():
                counters[key] = counters.get(key, 0) + val
            for key, val in res['per_sig'].items():
                per_sig[key] = per_sig.get(key, 0) + val
            samples += res['samples']
            for violation in res['violations']:
                violation.setdefault('shard', res['shard'])
                violations.append(violation)
            if os.environ.get('VERIF_VERBOSE'):
                print('shard', json.dumps(res['shard'])[:100], f"{res['wall']:.1f}s {res['cases']} cases",
                      file=sys.stderr)
            # A violation is certain: do not spend the whole time budget on cases that do not terminate.
            if 'no-termination' in per_sig or (violations and time.time() - start > 400
                                               and any(not is_known(known, v) for v in violations)):
                complete = False
                break
    fresh, known_hits = [], {}
    for violation in violations:
        entry = is_known(known, violation)
        if entry:
            known_hits[entry['what']] = known_hits.get(entry['what'], 0) + 1
        else:
            fresh.append(violation)
    samples = sorted({json.dumps(s, ensure_ascii=False, default=str) for s in samples}, key=lambda s: (len(s), s))
    picked = samples[::max(1, len(samples) // 12)][:12]
    wall = time.time() - start
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': dict(
            states=len(states), transitions=transitions, traces_validated_against_impl=traces,
            cases=cases, shards=len(shards), exhaustive=complete,
            samples=[json.loads(s) for s in picked],
            bounds=module.BOUNDS(tier),
            explanation=module.TITLE,
            **({'outcomes': counters} if counters else {})),
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': sum(per_sig.values()),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as handle:
        json.dump(evidence, handle, indent=1, ensure_ascii=False, default=str)
    print(f'{prop} [{tier}] cases={cases} states={len(states)} transitions={transitions} traces={traces} '
          f'wall={wall:.1f}s violations={sum(per_sig.values())}')
    for what, hits in sorted(known_hits.items()):
        print(f'KNOWN-FINDING: property={prop} {what}')
    if not fresh:
        return 0
    outdir = os.path.join(core.VERIF, 'out', prop)
    os.makedirs(outdir, exist_ok=True)
    for old in glob.glob(os.path.join(outdir, '*.json')):
        os.unlink(old)
    by_sig = {}
    for violation in sorted(fresh, key=lambda v: len(json.dumps(v['case'], default=str))):
        by_sig.setdefault(violation['signature'], violation)
    for i, (sig, violation) in enumerate(sorted(by_sig.items())):
        path = os.path.join('out', prop, f'{i:02d}.json')
        with open(os.path.join(core.VERIF, path), 'w', encoding='utf-8') as handle:
            json.dump(dict(property=prop, **violation), handle, indent=1, ensure_ascii=False, default=str)
        print(f'  {sig} (x{per_sig.get(sig, 1)}): {violation["detail"][:700]}')
        print(f'  case: {json.dumps(violation["case"], ensure_ascii=False, default=str)[:500]}')
        print(f'VIOLATION property={prop} replay={path}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
