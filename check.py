#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution
of the real code (rebuilt from /repo) with an SMT solver."""
import json, os, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine')); sys.path.insert(0, HERE)
import vsym
from props import PROPS

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                e = json.loads(l)
                if e['property'] == pid and e['status'] == 'known': out.append(e)
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    P = PROPS[pid]; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('VERIF_CASE')
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    known = known_findings(pid)
    viol = []; notes = []; cases_ev = []; funcs = set(); samples = []
    tot = dict(paths=0, entries=0, q=0, sat=0, unsat=0, unk=0, aq=0, t=0.0, replays=0, asserts=0, reach=0)
    complete_all = True; known_lines = []
    total_budget = P.get('total', 600 if tier == 'quick' else 6000); spent = lambda: time.time() - t0
    for c in P['cases']:
        if only and c['case'] != only: continue
        if c.get('tier') == 'thorough' and tier == 'quick': continue
        h = c['harness']; prm = dict(c.get('params', {}))
        if tier == 'thorough': prm.update(c.get('thorough', {}))
        args = [c['case']] + ['%s=%d' % kv for kv in sorted(prm.items())]
        budget = c.get('budget', 120) if tier == 'quick' else c.get('tbudget', 900)
        budget = max(5, min(budget, total_budget - spent()))
        exe = vsym.build(h, 'sym'); nat = vsym.build(h, 'nat')
        r = vsym.explore(exe, args, budget, qtimeout=c.get('qtimeout', 10000), maxconc=c.get('maxconc', 64), pathtime=c.get('pathtime', 60))
        comp = r.complete(); complete_all &= comp
        funcs |= r.funcs
        for k, v in (('paths', r.paths), ('entries', r.entries), ('q', r.q), ('sat', r.sat), ('unsat', r.unsat), ('unk', r.unk), ('aq', r.aq), ('t', r.solver_t), ('asserts', sum(r.asserts.values())), ('reach', sum(r.reach.values()))):
            tot[k] += v
        ev = dict(harness=h, case=' '.join(args), paths=r.paths, path_ends=r.ends, complete=comp, solver_queries=r.q, sat=r.sat, unsat=r.unsat, unknown=r.unk, assertion_queries=r.aq,
                  solver_seconds=round(r.solver_t, 3), wall_s=round(r.wall, 1), assertions=r.asserts, reached=r.reach, unexplored_paths=r.pending)
        if r.unknown: ev['unknown_reasons'] = r.unknown
        if r.limits: ev['limits'] = r.limits
        if r.diverge: ev['divergences'] = r.diverge
        if r.errors: ev['errors'] = r.errors[:5]
        if r.leak: ev['symbolic_data_reached_unencoded'] = r.leak
        if r.conc: ev['concretised_by_case_split'] = r.conc
        cases_ev.append(ev)
        if not r.reach and not r.viol and not r.crashes:
            notes.append('VACUOUS case %s: its end is never reached' % c['case']); complete_all = False
        cands = [(w, v) for w, vs in r.viol.items() for v in vs[:4]] + [('crash (%s)' % w, v) for v, w in r.crashes[:4]]
        seen = set()
        for i, (what, vals) in enumerate(cands):
            if what in seen: continue
            path = os.path.join(rdir, '%s-%s-%d.txt' % (pid, c['case'], i))
            vsym.write_replay(path, pid, h, args, what, vals)
            k, out = vsym.replay(nat, args, path); tot['replays'] += 1
            if k in ('violation', 'crash') or (k == 'timeout' and 'crash' not in what):
                seen.add(what)
                lab = [l.split('REPLAY-VIOLATION ', 1)[1] for l in out.split('\n') if l.startswith('REPLAY-VIOLATION ')]
                lab = lab[0] if lab else what
                kf = [e for e in known if e.get('case') == c['case'] and e.get('assertion') == lab]
                if kf:
                    known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what'])); continue
                with open(path, 'a') as f: f.write('# native replay: %s\n' % k + ''.join('# %s\n' % l for l in out.split('\n')[-60:]))
                viol.append((what, path, lab))
            else:
                notes.append('counterexample of "%s" in %s not reproduced natively (%s)' % (what, c['case'], k))
        # validate the encoding: inputs of explored paths must behave the same in the native build
        for i, s in enumerate(r.samples):
            path = os.path.join(rdir, '%s-%s-sample.txt' % (pid, c['case']))
            vsym.write_replay(path, pid, h, args, 'sample path', s)
            k, out = vsym.replay(nat, args, path); tot['replays'] += 1
            if k in ('violation', 'crash') and not r.viol and not r.crashes:
                p2 = os.path.join(rdir, '%s-%s-native%d.txt' % (pid, c['case'], i)); shutil.copy(path, p2); viol.append(('native run of an explored path fails', p2, ''))
            samples.append({'case': ' '.join(args), 'inputs': s[:600], 'native': k})
        print('%s %s: %s paths=%d queries=%d (unsat %d) solver %.1fs wall %.1fs%s' % (pid, ' '.join(args), 'complete' if comp else 'INCOMPLETE', r.paths, r.q, r.unsat, r.solver_t, r.wall, ''.join(' !%s' % x for x in (list(r.unknown)[:2] + list(r.limits)[:2] + r.errors[:2]))), flush=True)
        if viol and tier == 'quick': break
    allf = [f for f in vsym.demangle(funcs) if 'Bonmin::' in f or 'Ipopt::' in f or 'Cbc' in f or 'Osi' in f or 'Coin' in f]
    bon = sorted({f for f in allf if f.startswith('Bonmin::')})
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(states=tot['entries'], transitions=tot['q'], traces_validated_against_impl=tot['replays'], samples=samples[:6] or [{'case': c['case']} for c in cases_ev[:1]],
                            exhaustive=bool(complete_all and not viol),
                            explanation='states = symbolic decision points on the explored paths; transitions = SMT queries discharged; every path ran the compiled real code with symbolic shadow values; traces_validated = inputs re-run on the uninstrumented build. Within the bounds below the verdict is the solver\'s over all values when exhaustive is true.',
                            paths=tot['paths'], solver_queries=tot['q'], unsat=tot['unsat'], sat=tot['sat'], unknown=tot['unk'], assertion_queries=tot['aq'], assertions_checked=tot['asserts'], vacuity_witnesses=tot['reach'], solver_seconds=round(tot['t'], 2),
                            functions_encoded=bon, bounds=P['bounds'], cases=cases_ev, notes=notes),
              assumptions=P.get('assumptions', []) + COMMON)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    for n in notes: print('note:', n)
    for l in sorted(set(known_lines)): print(l)
    for what, path, lab in viol:
        print('VIOLATION property=%s replay=%s' % (pid, path)); print('  broken: %s' % (lab or what))
    sys.exit(1 if viol else 0)

COMMON = ['doubles are modelled as reals; inputs lie on a dyadic grid inside the stated ranges; infinities and sentinel values appear as concrete alternatives',
          'code of Ipopt, Cbc, Clp, Osi, CoinUtils is not encoded: data-moving functions have encoded stand-ins (harness/models.cpp), the rest runs concretely or is replaced by stubs named in the harness',
          'trusted: clang 18 code generation, the instrumentation pass and runtime in /verif/engine, Z3']
try:
    main()
except vsym.BuildError as e:
    print('BUILD ERROR', e); sys.exit(2)
