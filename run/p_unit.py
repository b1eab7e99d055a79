"""Units of the simulator driven directly, against their specifications (C17, C18, ...)."""
import concurrent.futures, json, os
import vlib, gen_unit, p_core, p_ports


def _run(ctx, exe, scripts, name, timeout=120, jobs=1):
    """The recorded runs, and (what went wrong, the runs that had been given to the process) if it died or hung."""
    path = vlib.build(exe)
    if jobs > 1:
        ids = list(scripts)
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(lambda k: _run(ctx, exe, {i: scripts[i] for i in ids[k::jobs]}, '%s.%d' % (name, k), timeout), range(jobs)))
        out = ctx.dir + '/%s.ndjson' % name
        with open(out, 'w') as o:
            for f, _ in rs:
                if os.path.exists(f):
                    with open(f) as fh:
                        o.write(fh.read())
                    os.remove(f)
        return out, next((p for _, p in rs if p), None)
    src, out = ctx.dir + '/%s.txt' % name, ctx.dir + '/%s.ndjson' % name
    with open(src, 'w') as fh:
        fh.write('\n'.join(scripts.values()) + '\n')
    if os.path.exists(out):
        os.remove(out)
    p = vlib.run_crashable([path, src, out], timeout)
    if p is None:
        return out, None
    done = open(out).read().count('\n') if os.path.exists(out) else 0
    return out, (p, list(scripts)[:done + 1])


def record(ctx, exe, scripts, name, timeout=120, jobs=1):
    """scripts: {id: text}; a unit that dies or hangs on a run conforms to nothing"""
    out, p = _run(ctx, exe, scripts, name, timeout, min(jobs, len(scripts)))
    if p is None:
        return out
    # the last run given to the process alone, then with those before it in the same process
    for ids in (p[1][-1:], p[1]):
        _, p2 = _run(ctx, exe, {i: scripts[i] for i in ids}, 'crash', timeout)
        if p2 is not None:
            f = vlib.keep_replay(ctx.prop, 'crash_%s.txt' % ids[-1], p2[0] + '\n' + '\n'.join(scripts[i] for i in ids))
            raise vlib.Violation('%s failed on run %s: %s' % (exe, p2[1][-1], p2[0][-200:]), f)
    raise vlib.CheckError('%s failed once (%s) but not again on run %s' % (exe, p[0], p[1][-1]))


def unit(ctx, exe, module, scripts, name, cfg=None, timeout=120, jobs=1):
    out = record(ctx, exe, scripts, name, timeout, jobs)

    def again(ident):
        return record(ctx, exe, {ident: scripts[ident]}, 'again', timeout)
    ctx.add(vlib.trace_check(ctx.prop, module, out, again, cfg=cfg, desc='(%s)' % name))
    with open(out) as fh:
        for k, line in enumerate(fh):
            ctx.traces += 1
            d = json.loads(line)
            ctx.count('steps_' + name, len(d['v']))
            if k == 0:
                ctx.sample(dict(run=d['id'], what=name, first=d['v'][:3]))
    os.remove(out)


def C06(ctx):
    p_ports.exhaust(ctx, 'DcacheMC', 'DcacheMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'dc', 'DcacheTrace', gen_unit.dcache(ctx.rng('dcache'), ctx.n(1600, 25000)), 'dcache', jobs=4)


def C17(ctx):
    p_ports.exhaust(ctx, 'FrontMC', 'FrontMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'front', 'FrontUnitTrace', gen_unit.queues(ctx.rng('queues'), ctx.n(1200, 12000)), 'queues')
    for fam, n in p_ports.FAMILIES:
        p_ports.ports(ctx, 'Q', 'FrontTrace', fam, ctx.n(n, n * 12))


def C18(ctx):
    unit(ctx, 'front', 'FrontUnitTrace', gen_unit.words(ctx.rng('words'), ctx.n(100, 2000)), 'words')
    unit(ctx, 'front', 'FrontUnitTrace', gen_unit.blocks(ctx.rng('blocks'), ctx.n(4, 40)), 'blocks')
    for fam, n in p_ports.FAMILIES:
        if fam in ('br', 'win', 'priv', 'vm', 'smc', 'mix'):
            p_ports.ports(ctx, 'Q', 'FrontTrace', fam, ctx.n(n, n * 8))


def C19(ctx):
    p_ports.exhaust(ctx, 'CsrMC', 'CsrMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'csr', 'CsrTrace', gen_unit.csrs(ctx.rng('csrs'), ctx.n(3000, 40000)), 'csrs', jobs=4)


def C21(ctx):
    p_ports.exhaust(ctx, 'DevMC', 'DevMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'mem', 'MemTrace', gen_unit.devices(ctx.rng('devices'), ctx.n(2500, 25000)), 'devices')
    p_core.conform(ctx, 'dev', ctx.n(150, 2000))


def C22(ctx):
    unit(ctx, 'mem', 'MemTrace', gen_unit.memory(ctx.rng('memory'), ctx.n(2000, 20000)), 'memory')
    unit(ctx, 'boot', 'BootTrace', gen_unit.images(ctx.rng('images'), ctx.n(60, 600)), 'images', jobs=4)


def C23(ctx):
    unit(ctx, 'lock', 'LockTrace', gen_unit.lockstep(ctx.rng('lockstep'), ctx.n(3000, 30000)), 'lockstep', jobs=4)
    for fam in ('mix', 'br', 'mem'):
        p_core.conform(ctx, fam, ctx.n(60, 800), cfg='CoreLock.cfg', exe='simlock')


def C27(ctx):
    unit(ctx, 'boot', 'BootTrace', gen_unit.checkpoints(ctx.rng('ckpt'), ctx.n(90, 1200)), 'checkpoints', jobs=4)
    for fam in ('mix', 'priv', 'vm', 'amo'):
        p_core.conform(ctx, fam, ctx.n(30, 400), env={'BOOT': 'ckpt'})


def C32(ctx):
    p_ports.exhaust(ctx, 'DriverMC', 'DriverMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'mainrun', 'DriverTrace', gen_unit.drivers(ctx.rng('drivers'), ctx.n(300, 4000)), 'runs', timeout=300, jobs=6)


def C24(ctx):
    p_ports.exhaust(ctx, 'ExuMC', 'ExuMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'exu', 'ExuTrace', gen_unit.units(ctx.rng('units'), ctx.n(1500, 20000)), 'units', jobs=6)


def C25(ctx):
    p_ports.exhaust(ctx, 'FloatMC', 'FloatMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'fpu', 'FloatTrace', gen_unit.floats(ctx.rng('floats'), ctx.n(2500, 60000)), 'floats', jobs=6)
    # the same operations in flight, with squashes and forwarding
    unit(ctx, 'exu', 'ExuTrace', gen_unit.units(ctx.rng('fpunits'), ctx.n(300, 4000), [(1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 8)]), 'fpunits', jobs=6)
    # and in programs
    p_core.conform(ctx, 'fp', ctx.n(200, 3000))


def C31(ctx):
    p_ports.exhaust(ctx, 'BpuMC', 'BpuMCq.cfg' if ctx.quick else None, 3000)
    unit(ctx, 'bpu', 'BpuTrace', gen_unit.bpu(ctx.rng('bpu'), ctx.n(700, 9000)), 'predictor', jobs=4)
    unit(ctx, 'bpu2', 'BpuTrace', gen_unit.bpu(ctx.rng('bpu2'), ctx.n(250, 3000)), 'second-next predictor', jobs=4)
