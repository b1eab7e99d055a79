"""The whole simulator against CoreTrace (C01, C03-C05, C07, C08, C10, C11, C26, C28-C30)."""
import json, os, subprocess
import vlib, gen_core


def _record(ctx, scripts, name, jobs, exe='simrec', env=None):
    """run the scripts; returns (ndjson path, None | (id, text) of the first failed run)"""
    exe = vlib.build(exe)
    ids = list(scripts)
    jobs = max(1, min(jobs, len(ids)))
    ps = []
    for k in range(jobs):
        src, out = '%s/%s.%d.txt' % (ctx.dir, name, k), '%s/%s.%d.ndjson' % (ctx.dir, name, k)
        with open(src, 'w') as fh:
            fh.write('\n'.join(scripts[i] for i in ids[k::jobs]) + '\n')
        ps.append((subprocess.Popen([exe, src, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.dir,
                                    env=dict(os.environ, **(env or {}))), src, out))
    fail = None
    total = '%s/%s.ndjson' % (ctx.dir, name)
    with open(total, 'w') as o:
        for p, src, out in ps:
            txt = p.communicate()[0].decode(errors='replace')
            if p.returncode and fail is None:
                ident = [x.split()[1] for x in txt.splitlines() if x.startswith('FAILED ')]
                if not ident:
                    raise vlib.CheckError('simulator driver failed:\n' + txt[-2000:])
                fail = (ident[0], txt[-400:])
            if os.path.exists(out):
                with open(out) as fh:
                    for line in fh:
                        o.write(line)
                os.remove(out)
            os.remove(src)
    return total, fail


def record(ctx, scripts, name, jobs=vlib.NCPU, exe='simrec', env=None):
    out, fail = _record(ctx, scripts, name, jobs, exe, env)
    if fail is None:
        return out
    ident = fail[0]
    _, fail2 = _record(ctx, {ident: scripts[ident]}, 'crash', 1, exe, env)
    if fail2 is None:
        raise vlib.CheckError('simulator failed once (%s) but not again' % (fail,))
    f = vlib.keep_replay(ctx.prop, 'crash_%s.txt' % ident, fail2[1] + '\n' + scripts[ident])
    raise vlib.Violation('simulator failed on run %s: %s' % (ident, fail2[1].strip()), f)


WIDE = 'wide/simrec'


def wide(ctx):
    """the four-wide shipped configuration, where the tree has one that compiles"""
    try:
        vlib.build(WIDE)
        return True
    except vlib.CheckError as e:
        print('note: the wider configuration does not build, its runs are left out: %s' % str(e)[-300:])
        return False


def conform(ctx, fam, n, module='CoreTrace', gen=None, cfg=None, env=None, exe='simrec'):
    rng = ctx.rng('core' if exe != WIDE else 'wide', fam)
    gen = gen or gen_core.trace
    tag, scripts = 'w' if exe == WIDE else '', {}
    for k in range(n):
        ident = '%s%s%d' % (tag, fam, k)
        scripts[ident] = gen(rng, ident, fam)
    out = record(ctx, scripts, fam, exe=exe, env=env)

    def again(ident):
        return record(ctx, {ident: scripts[ident]}, 'again', 1, exe, env)
    res = vlib.trace_check(ctx.prop, module, out, again, desc='(family %s)' % fam, cfg=cfg)
    ctx.add(res)
    with open(out) as fh:
        for k, line in enumerate(fh):
            ctx.traces += 1
            d = json.loads(line)
            ctx.count('commits_' + tag + fam, len(d['ev']))
            ctx.count('cycles_' + tag + fam, d['cycles'])
            if k in (0, n // 2):
                ctx.sample(dict(run=d['id'], end=d['end'], commits=len(d['ev']), cycles=d['cycles'],
                                first_event=d['ev'][0] if d['ev'] else None))
    os.remove(out)


def determinism(ctx, fam, n):
    rng = ctx.rng('core', fam)
    scripts = {}
    for k in range(n):
        ident = '%s%d' % (fam, k)
        scripts[ident] = gen_core.trace(rng, ident, fam)

    def pair(scr, name, jobs=vlib.NCPU):
        a = record(ctx, scr, name + 'a', jobs)
        back = dict(reversed(list(scr.items())))
        b = record(ctx, back, name + 'b', max(1, jobs - 3), 'simrec.pat', {'MALLOC_PERTURB_': '165', 'LD_PAD': 'x' * 3000})
        lines = {}
        with open(b) as fh:
            for line in fh:
                lines[json.loads(line)['id']] = line.rstrip('\n')
        out = '%s/%s.ndjson' % (ctx.dir, name)
        with open(a) as fh, open(out, 'w') as o:
            for line in fh:
                i = json.loads(line)['id']
                o.write('{"id":"%s","a":%s,"b":%s}\n' % (i, line.rstrip('\n'), lines[i]))
        os.remove(a), os.remove(b)
        return out
    out = pair(scripts, fam)

    def again(ident):
        return pair({ident: scripts[ident]}, 'again', 1)
    ctx.add(vlib.trace_check(ctx.prop, 'DetTrace', out, again, desc='(family %s)' % fam))
    with open(out) as fh:
        for k, line in enumerate(fh):
            ctx.traces += 2
            d = json.loads(line)
            ctx.count('commits_' + fam, len(d['a']['ev']))
            if k == 0:
                ctx.sample(dict(run=d['id'], end=d['a']['end'], cycles=[d['a']['cycles'], d['b']['cycles']]))
    os.remove(out)


def lsu(ctx, n):
    import gen_unit
    import p_ports
    import p_unit
    p_ports.exhaust(ctx, 'LsuMC', 'LsuMCq.cfg' if ctx.quick else None, 3000)
    p_unit.unit(ctx, 'lsu', 'LsuTrace', gen_unit.lsu(ctx.rng('lsu'), n), 'lsu', jobs=4)


def C01(ctx):
    conform(ctx, 'mix', ctx.n(500, 6000))
    conform(ctx, 'br', ctx.n(150, 2000))
    conform(ctx, 'mem', ctx.n(150, 2000))
    conform(ctx, 'fp', ctx.n(150, 2000))
    if wide(ctx):
        for fam in ('mix', 'br', 'mem', 'fp'):
            conform(ctx, fam, ctx.n(60, 800), exe=WIDE)


def C03(ctx):
    conform(ctx, 'priv', ctx.n(500, 6000))
    conform(ctx, 'vm', ctx.n(200, 2000))
    conform(ctx, 'dev', ctx.n(150, 2000))
    if not ctx.quick and wide(ctx):
        for fam in ('priv', 'vm', 'dev'):
            conform(ctx, fam, 800, exe=WIDE)


def C04(ctx):
    conform(ctx, 'br', ctx.n(400, 5000))
    conform(ctx, 'mem', ctx.n(200, 2000))
    conform(ctx, 'priv', ctx.n(150, 2000))
    lsu(ctx, ctx.n(6000, 60000))


def C05(ctx):
    conform(ctx, 'mem', ctx.n(600, 8000))
    conform(ctx, 'amo', ctx.n(100, 1000))
    lsu(ctx, ctx.n(9000, 90000))


def C07(ctx):
    import gen_unit
    import p_ports
    import p_unit
    p_ports.exhaust(ctx, 'IcacheMC', 'IcacheMCq.cfg' if ctx.quick else None, 3000)
    p_unit.unit(ctx, 'ic', 'IcacheTrace', gen_unit.icache(ctx.rng('icache'), ctx.n(700, 12000)), 'icache', jobs=4)
    conform(ctx, 'smc', ctx.n(600, 8000))
    conform(ctx, 'br', ctx.n(100, 1000))


def C08(ctx):
    import gen_unit
    import p_ports
    import p_unit
    conform(ctx, 'vm', ctx.n(500, 8000))
    conform(ctx, 'vmt', ctx.n(400, 5000))
    p_ports.exhaust(ctx, 'TlbMC', 'TlbMCq.cfg' if ctx.quick else None, 3000)
    p_unit.unit(ctx, 'tlb', 'TlbTrace', gen_unit.tlb(ctx.rng('tlb'), ctx.n(8000, 90000)), 'tlb', jobs=4)


def C10(ctx):
    import p_ref
    conform(ctx, 'amo', ctx.n(500, 6000))
    p_ref.conform(ctx, 'amo', ctx.n(2500, 25000))
    lsu(ctx, ctx.n(9000, 90000))


def C11(ctx):
    for fam in gen_core.FAMS:
        conform(ctx, fam, ctx.n(90, 1000))
    if not ctx.quick and wide(ctx):
        for fam in gen_core.FAMS:
            conform(ctx, fam, 300, exe=WIDE)


def C26(ctx):
    conform(ctx, 'dev', ctx.n(700, 9000))
    lsu(ctx, ctx.n(9000, 90000))


def C28(ctx):
    for fam in ('mix', 'vm', 'dev', 'smc', 'br', 'fp'):
        determinism(ctx, fam, ctx.n(100, 1200))


def C29(ctx):
    for fam in ('mix', 'br', 'mem', 'priv', 'dev'):
        conform(ctx, fam, ctx.n(130, 1500))


def C30(ctx):
    conform(ctx, 'br', ctx.n(700, 9000))
    import p_ports
    p_ports.ports(ctx, 'F', 'FtqTrace', 'br', ctx.n(200, 3000))
