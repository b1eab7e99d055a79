"""Reference interpreter against RV32 (C02, C09, C10, C20, ...)."""
import json, os
import vlib, gen_ref


def _run(ctx, scripts, name):
    exe = vlib.build('refrec')
    src, out = ctx.dir + '/%s.txt' % name, ctx.dir + '/%s.ndjson' % name
    with open(src, 'w') as fh:
        fh.write('\n'.join(scripts.values()) + '\n')
    p = vlib.run_crashable([exe, src, out], 120)
    return out, p


def record(ctx, scripts, name):
    """scripts: {id: text}; returns path of the ndjson.  An interpreter that dies or
    hangs on a run does not conform to any behaviour of the specification."""
    out, p = _run(ctx, scripts, name)
    if p is None:
        return out
    with open(out) as fh:
        done = fh.read().count('\n')
    ident = list(scripts)[min(done, len(scripts) - 1)]
    _, p2 = _run(ctx, {ident: scripts[ident]}, 'crash')
    if p2 is None:
        raise vlib.CheckError('interpreter failed once (%s) but not again on run %s' % (p, ident))
    f = vlib.keep_replay(ctx.prop, 'crash_%s.txt' % ident, p2 + '\n' + scripts[ident])
    raise vlib.Violation('interpreter failed on run %s: %s' % (ident, p2[-200:]), f)


def conform(ctx, fam, n, name=None, gen=None):
    rng = ctx.rng('ref', fam)
    gen = gen or gen_ref.trace
    scripts = {}
    for k in range(n):
        ident = '%s%d' % (fam, k)
        scripts[ident] = gen(rng, ident, fam)
    out = record(ctx, scripts, name or fam)

    def again(ident):
        return record(ctx, {ident: scripts[ident]}, 'again')
    res = vlib.trace_check(ctx.prop, 'RefTrace', out, again, desc='(family %s)' % fam)
    ctx.add(res)
    steps = 0
    with open(out) as fh:
        for k, line in enumerate(fh):
            ctx.traces += 1
            d = json.loads(line)
            steps += len(d['ev'])
            if k in (0, n // 2):
                ctx.sample(dict(run=d['id'], pc=hex(d['init'][0] & 0xFFFFFFFF), steps=len(d['ev']),
                                first_event=d['ev'][0] if d['ev'] else None))
    ctx.count('steps_' + fam, steps)
    os.remove(out)


def C02(ctx):
    conform(ctx, 'alu', ctx.n(12000, 80000))


def C09(ctx):
    conform(ctx, 'vm', ctx.n(6000, 60000))


def C20(ctx):
    conform(ctx, 'priv', ctx.n(4000, 40000))
    conform(ctx, 'dev', ctx.n(1500, 15000))
    conform(ctx, 'vm', ctx.n(1500, 15000))
