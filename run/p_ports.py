"""Module ports of the running simulator against the back-end specifications (C12-C16)."""
import json, os
import vlib, gen_core, p_core


def ports(ctx, sel, module, fam, n, exe='simrec', cfg=None):
    """record section `sel` of n runs of family fam and check it against `module`"""
    tag = 'w' if exe == p_core.WIDE else ''
    rng = ctx.rng(tag + 'ports', fam)
    scripts = {}
    for k in range(n):
        ident = '%s%s%d' % (tag, fam, k)
        scripts[ident] = gen_core.trace(rng, ident, fam)
    env = {'PORTS': sel}
    out = p_core.record(ctx, scripts, fam, exe=exe, env=env)

    def again(ident):
        return p_core.record(ctx, {ident: scripts[ident]}, 'again', 1, exe, env)
    ctx.add(vlib.trace_check(ctx.prop, module, out, again, cfg=cfg, desc='(family %s)' % fam))
    with open(out) as fh:
        for k, line in enumerate(fh):
            ctx.traces += 1
            d = json.loads(line)
            ctx.count('cycles_observed_' + tag + fam, len(d['pt']))
            ctx.count('cycles_run_' + tag + fam, d['cycles'])
            if k == 0:
                ctx.sample(dict(run=d['id'], end=d['end'], commits=d['commits'], cycles=d['cycles'], observed=d['pt'][1:3]))
    os.remove(out)


def exhaust(ctx, module, cfg=None, timeout=800):
    """enumerate a closed model; a violated invariant here is a defect of the specification"""
    res = vlib.tlc(module, cfg, timeout=timeout)
    if not res.ok:
        raise vlib.CheckError('%s does not satisfy its own invariants:\n%s' % (module, res.out[-3000:]))
    ctx.add(res)
    ctx.count('model_states_' + module, res.distinct)


FAMILIES = [('win', 120), ('br', 120), ('mem', 80), ('priv', 60), ('vm', 50), ('ev', 60), ('amo', 60), ('dev', 40),
            ('smc', 30), ('mix', 40), ('fp', 50)]


def check(ctx, sel, module, model, quick_cfg=None, wide=None):
    exhaust(ctx, model, quick_cfg if ctx.tier == 'quick' else None, 3000)
    for fam, n in FAMILIES:
        ports(ctx, sel, module, fam, ctx.n(n, n * 12))
    if wide and p_core.wide(ctx):
        for fam in ('win', 'br', 'priv', 'fp', 'amo'):
            ports(ctx, sel, module, fam, ctx.n(30, 400), p_core.WIDE, wide)


def C12(ctx):
    check(ctx, 'R', 'RenameTrace', 'RenameMC', wide='RenameWide.cfg')


def C13(ctx):
    check(ctx, 'B', 'RobTrace', 'RobMC', 'RobMC.cfg', 'RobTrace.cfg')


def C14(ctx):
    check(ctx, 'T', 'TagsTrace', 'TagsMC', 'TagsMCq.cfg', 'TagsWide.cfg')


def C15(ctx):
    check(ctx, 'I', 'IssueTrace', 'IssueMC', 'IssueMCq.cfg', 'IssueTrace.cfg')


def C16(ctx):
    check(ctx, 'F', 'FtqTrace', 'FtqMC', wide='FtqWide.cfg')
