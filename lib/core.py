"""Checks decided by the module specification (RtaCore): explore, replay, validate."""
import vt


def replay(ctx, cfgs, info_rate=0.0, extra_random=0, limit=None, keep=None, module='TraceModule', repeat=1):
    """full pipeline for module configurations"""
    graphs, inits = vt.explore(ctx, cfgs)
    jobs, meta = [], []
    uncovered = 0
    for ci, (cfg, g) in enumerate(zip(cfgs, graphs)):
        if not g:
            raise vt.Machinery(f'configuration {cfg["name"]} has no transitions')
        s0 = inits[ci]
        for rep in range(repeat):
            walk, left = vt.cover_walk(g, s0, len(cfg['ops']), ctx.rng, limit)
            uncovered += left
            s = s0
            for k in walk:
                s = g[s][k][0]
            for st, e in (g.items() if rep == 0 else ()):
                for _, v in e.values():
                    if v:
                        ctx.verdicts[v] = ctx.verdicts.get(v, 0) + 1
            walk += vt.random_walk(g, s, ctx.rng, extra_random)
            ops = []
            for k in walk:
                ops.append(cfg['ops'][k])
                if info_rate and ctx.rng.random() < info_rate:
                    ops.append({'op': 'info'})
            jobs.append((cfg, ops, ctx.rng.randint(0, 7)))
            meta.append(ci)
    order = sorted(range(len(jobs)), key=lambda i: -len(jobs[i][1]))
    res = vt.run_jobs(ctx, 'toys', 'run_walk', [jobs[i] for i in order])
    evs = [None] * len(jobs)
    for i, r in zip(order, res):
        evs[i] = r
    traces = [{'c': meta[i] + 1, 'ev': e} for i, e in enumerate(evs)]
    slim = [dict(c, ops=[]) for c in cfgs]
    ctx.notes['transitions_not_replayed'] = ctx.notes.get('transitions_not_replayed', 0) + uncovered
    ctx.notes['configurations'] = ctx.notes.get('configurations', 0) + len(cfgs)
    if traces:
        tr = ctx.rng.choice(traces)
        ctx.samples.append({'config': slim[tr['c'] - 1]['name'], 'calls': tr['ev'][:4]})

    def describe(t, l, clauses):
        tr = traces[t]
        return dict(config=cfgs[tr['c'] - 1]['name'], cfg=slim[tr['c'] - 1], event=tr['ev'][l], index=l, before=tr['ev'][max(0, l - 6):l])

    if traces:
        vt.validate(ctx, module, {'cfgs': slim, 'traces': traces}, describe, keep=keep)
    return traces
