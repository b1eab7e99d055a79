"""Programs, start states and fabric behaviours for runs of the whole simulator."""
from enc import *
import gen_ref
import gen_unit
from gen_ref import rreg, pte

CODE, DATA, ROOT, L2, L2B = 0x80001000, 0x80010000, 0x80020000, 0x80021000, 0x80022000
ROOT2 = 0x80023000
VCODE, VDATA, VSUP = 0x40001000, 0x40400000, 0x40800000
VPT = 0x40C00000                         # superpage view used to write page tables
CSTRIDE = 0x4000                         # same data-cache set
DB, CB = [24, 25, 26, 27], [28, 29, 30, 31]
UART, PLIC, TIMER, XPS = 0x10000000, 0x0C201004, 0x1FD0E000, 0x1FB00000


WMAX = [20]


def wreg(rng):
    """x1 and the registers from WMAX up hold addresses and constants that programs rely on"""
    k = rng.choice([rng.randrange(WMAX[0]), rng.randrange(2, WMAX[0]), rng.randrange(2, 9)])
    return 0 if k == 1 else k


def mem_insn(rng, bases):
    w = gen_ref.mem_insn(rng, bases)
    return w if w & 0x7F != 3 else w & ~0xF80 | wreg(rng) << 7


def csr_insn(rng):
    return gen_ref.csr_insn(rng) & ~0xF80 | wreg(rng) << 7


def alu(rng):
    q = rng.random()
    if q < .5: return opimm(rng, wreg(rng), rreg(rng))
    if q < .8:
        f3, f7 = rng.choice(RR)
        return r(0x33, wreg(rng), f3, rreg(rng), rreg(rng), f7)
    if q < .93:
        f3, f7 = rng.choice(MD)
        return r(0x33, wreg(rng), f3, rreg(rng), rreg(rng), f7)
    return rng.choice([lui, auipc])(wreg(rng), rng.randrange(1 << 20))


def branch(rng, k, n, cond=.7, near=.6):
    tgt = rng.randrange(n)
    if rng.random() < near:
        tgt = max(0, min(n - 1, k + rng.choice([-6, -4, -3, -2, -1, 1, 2, 2, 3, 4, 5, 6, 9])))
    d = (tgt - k) * 4
    q = rng.random()
    if q < cond:
        return b(rng.choice([0, 1, 4, 5, 6, 7]), rreg(rng), rreg(rng), d)
    if q < cond + (1 - cond) * .4:
        return j(rng.choice([0, 1, 1, wreg(rng)]), d)
    if q < cond + (1 - cond) * .6:
        return jalr(0, 1, 0) if rng.random() < .8 else jalr(wreg(rng), 1, 0)
    return jalr(rng.choice([0, 1, wreg(rng)]), rng.choice(CB), rng.randrange(0, n) * 4 + rng.choice([0, 0, 1]))


def loop(rng, k, out, body):
    """a counted loop, so that predictors are trained before they are wrong"""
    reg = 23
    out.append(addi(reg, 0, rng.randrange(2, 7)))
    top = len(out)
    for w in body:
        out.append(w)
    out.append(addi(reg, reg, -1))
    out.append(b(1, reg, 0, (top - len(out)) * 4))


def store_forward(rng):
    """overlapping accesses of all widths to one or two words"""
    base = rng.choice(DB)
    off = rng.randrange(-8, 8) * 4
    o = []
    for _ in range(rng.randrange(2, 6)):
        f3 = rng.choice([0, 1, 2])
        d = off + rng.randrange(0, 8, 1 << f3)
        if rng.random() < .5:
            o.append(s(f3, base, rreg(rng), d))
        else:
            o.append(i(3, wreg(rng), rng.choice([f3, f3 | 4]) if f3 < 2 else 2, base, d))
    return o


def mem_store(rng):
    return s(rng.choice([0, 1, 2]), rng.choice([24, 25, 27]), rreg(rng), 4 * rng.randrange(-16, 16))


def slow(rng):
    """a long-latency producer feeding an address, a datum or a branch"""
    rd = rng.randrange(2, 9)
    return [r(0x33, rd, rng.choice([4, 5, 6, 7, 0, 1]), rreg(rng), rreg(rng), 1),
            rng.choice([sw(rng.choice(DB), rd, 0), b(rng.choice([0, 1, 4, 7]), rd, rreg(rng), 8), opimm(rng, wreg(rng), rd)])]


def late_address(rng):
    """store whose address depends on a divide, then a load that may hit it"""
    base = rng.choice(DB)
    t = 22
    o = [r(0x33, t, 5, base, 21, 1)]         # x / 1, late
    off = rng.randrange(0, 4) * 4
    o.append(s(rng.choice([0, 1, 2]), t, rreg(rng), off))
    for _ in range(rng.randrange(1, 4)):
        o.append(i(3, wreg(rng), rng.choice([0, 1, 2, 4, 5]), base, off))
    return o


def window(rng, k, n):
    """a late value at the head of a long stretch of work that depends on it, or not at all"""
    rd, o = rng.randrange(2, 9), []
    if rng.random() < .6:
        o += [lui(22, 4 * rng.randrange(0, 9)), r(0x33, 22, 0, 22, 24, 0), lw(rd, 22, 4 * rng.randrange(16))]
    else:
        o += [r(0x33, rd, 4, rreg(rng), rreg(rng), 1)] + [r(0x33, rd, rng.choice([4, 5, 6, 7]), rd, rreg(rng), 1)
                                                         for _ in range(rng.randrange(3))]
    style = rng.choice(['dest', 'dest', 'br', 'br', 'mix', 'full'])
    for _ in range(rng.choice([8, 20, 40, 50])):
        q = rng.random()
        if style == 'dest': o.append(alu(rng))
        elif style == 'br':
            o.append(b(rng.choice([0, 1, 4, 5, 6, 7]), rng.choice([rd, rd, rreg(rng)]), rreg(rng), rng.choice([4, 8, 8, 12]))
                     if q < .6 else alu(rng))
        elif style == 'full':
            o.append(b(1, 0, 0, 8) if q < .55 else alu(rng) if q < .8 else s(2, 24, rreg(rng), 4 * rng.randrange(16)))
        else:
            o.append(alu(rng) if q < .4 else mem_insn(rng, DB) if q < .7 else
                     b(rng.choice([0, 1, 4, 5, 6, 7]), rng.choice([rd, rreg(rng)]), rreg(rng), rng.choice([4, 8, 8, 12])))
    return o


def evict(rng):
    """an access to one of many lines of the same data-cache set"""
    o = [lui(22, 4 * rng.randrange(0, 9)), r(0x33, 22, 0, 22, rng.choice([24, 24, 24, 25]), 0)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        f3 = rng.choice([0, 1, 2, 2])
        d = rng.randrange(0, 64, 1 << f3)
        o.append(s(f3, 22, rreg(rng), d) if rng.random() < .55 else i(3, wreg(rng), f3, 22, d))
    return o


def backlog(rng, base, lo, hi):
    """stores to lines not in the cache: what follows waits in the store queue"""
    return [sw(base, rreg(rng), 64 * rng.randrange(lo, hi) + 4 * rng.randrange(16)) for _ in range(rng.choice([2, 5, 12, 12, 14]))]


def table_update(rng):
    """a page-table store behind other stores, the fence, and a use of the page"""
    w, out = rng.random(), []
    if w < .3: out += [lui(15, (VPT >> 12) + 0x100 + rng.randrange(0x100))] + backlog(rng, 15, 0, 31)
    elif w < .7:   # ... all in one set of the data cache
        o = 64 * rng.randrange(31) + 4 * rng.randrange(16)
        for _ in range(rng.choice([6, 10, 14])):
            out += [lui(15, (VPT >> 12) + 0x100 + 4 * rng.randrange(64)), sw(15, rreg(rng), o)]
    p = rng.choice([0, 1, 1, 2, 2])
    out += [sw(19, rng.choice([16, 17, 18]), 4 * p), SFENCE]
    if rng.random() < .8:
        base, o = 25 if p == 2 else 24, 4 * rng.randrange(32)
        out.append(lw(wreg(rng), base, o) if rng.random() < .5 else sw(base, rreg(rng), o))
    return out


def paged_code(rng, base):
    """blocks that compete for the same instruction-cache sets"""
    mem, nb = {}, rng.choice([6, 10, 13])
    at = [base + 0x1000 * k + rng.choice([0, 0, 0, 4, 0x38, 0x40]) for k in range(nb)]
    for k in range(nb):
        n = rng.choice([2, 4, 9, 17, 20])
        for q in range(n):
            mem[at[k] + 4 * q] = alu(rng) if rng.random() < .8 else rng.choice([b(rng.choice([0, 1, 4, 6]), rreg(rng), rreg(rng), 8), FENCEI, NOP])
        a = at[k] + 4 * n
        mem[a] = b(rng.choice([0, 1, 4, 5]), rreg(rng), rreg(rng), 8)
        for q in (1, 2):
            mem[a + 4 * q] = j(rng.choice([0, 1]), at[rng.choice([(k + 1) % nb, (k + 1) % nb, rng.randrange(nb)])] - a - 4 * q)
    return mem, at[0]


FAMS = ('mix', 'br', 'mem', 'amo', 'priv', 'vm', 'smc', 'dev', 'ev', 'ic', 'win', 'fp', 'vmt')


def code(rng, fam, n):
    out = []
    while len(out) < n:
        k = len(out)
        q = rng.random()
        if fam == 'mix':
            if q < .45: out.append(alu(rng))
            elif q < .70: out.append(mem_insn(rng, DB))
            elif q < .86: out.append(branch(rng, k, n))
            elif q < .90: out += slow(rng)
            elif q < .94: out += store_forward(rng)
            elif q < .96: out += late_address(rng)
            elif q < .98: loop(rng, k, out, [alu(rng) for _ in range(rng.randrange(1, 5))])
            elif q < .99: out.append(rng.choice([FENCE, FENCEI, SFENCE]))
            else: out.append(csr_insn(rng))
        elif fam == 'br':
            if q < .35: out.append(alu(rng))
            elif q < .75: out.append(branch(rng, k, n, .55, .7))
            elif q < .85: loop(rng, k, out, [alu(rng) if rng.random() < .6 else b(rng.choice([0, 1, 4, 6]), rreg(rng), rreg(rng), 8)
                                             for _ in range(rng.randrange(1, 6))] + [NOP])
            elif q < .93: out += slow(rng)
            else: out.append(mem_insn(rng, DB))
        elif fam == 'mem':
            if q < .15: out.append(alu(rng))
            elif q < .60: out.append(mem_insn(rng, DB))
            elif q < .78: out += store_forward(rng)
            elif q < .88: out += late_address(rng)
            elif q < .93: out.append(branch(rng, k, n))
            elif q < .96: out += slow(rng)
            elif q < .98: out.append(FENCE)
            else: out.append(amo(rng.choice(AMO_OPS), wreg(rng), rng.choice(DB), rreg(rng)))
        elif fam == 'ev':
            if q < .60: out += evict(rng)
            elif q < .70: out.append(alu(rng))
            elif q < .80: out.append(mem_insn(rng, DB))
            elif q < .90: out.append(branch(rng, k, n))
            elif q < .94: out += slow(rng)
            elif q < .96: out.append(FENCE)
            else: out += evict(rng)[:2] + [amo(rng.choice(AMO_OPS + [2, 3]), wreg(rng), 22, rreg(rng))]
        elif fam == 'ic':
            out.append(alu(rng))
        elif fam == 'win':
            if q < .75: out += window(rng, k, n)
            elif q < .85: out.append(branch(rng, k, n))
            elif q < .95: out.append(alu(rng))
            else: out.append(rng.choice([csr_insn(rng), FENCE, amo(rng.choice(AMO_OPS), wreg(rng), 24, rreg(rng)), ECALL]))
        elif fam == 'fp':
            if q < .45: out.append(gen_unit.fp_word(rng, wreg(rng), rreg(rng), rreg(rng)))
            elif q < .60: out.append(alu(rng))
            elif q < .75: out.append(mem_insn(rng, DB))
            elif q < .88: out.append(branch(rng, k, n))
            elif q < .92: out += slow(rng)
            elif q < .96: out += store_forward(rng)
            elif q < .98: loop(rng, k, out, [gen_unit.fp_word(rng, wreg(rng), rreg(rng), rreg(rng)) for _ in range(rng.randrange(1, 5))])
            else: out.append(rng.choice([csr_insn(rng), FENCE, amo(rng.choice(AMO_OPS), wreg(rng), rng.choice(DB), rreg(rng))]))
        elif fam == 'amo':
            if q < .45: out.append(amo(rng.choice(AMO_OPS + [2, 2, 2, 3, 3, 3, 3]), wreg(rng), rng.choice(DB), rreg(rng), rng.randrange(4)))
            elif q < .60: out.append(rng.choice([lw(wreg(rng), rng.choice(DB), 0), sw(rng.choice(DB), rreg(rng), 0)]))
            elif q < .66: out.append(mem_insn(rng, DB))
            elif q < .80: out.append(alu(rng))
            elif q < .86: out += slow(rng)
            elif q < .90: out += [amo(2, wreg(rng), 24, 0), b(rng.choice([0, 1, 4]), rreg(rng), rreg(rng), 8),
                                  amo(3, wreg(rng), rng.choice(DB), rreg(rng))]
            elif q < .97: out.append(branch(rng, k, n))
            else: out.append(rng.choice([ECALL, FENCE, csr(2, wreg(rng), 0, CSRS['mscratch'])]))
        elif fam == 'priv':
            if q < .40: out.append(csr_insn(rng))
            elif q < .46: out.append(ECALL)
            elif q < .54: out.append(rng.choice([MRET, SRET]))
            elif q < .57: out.append(rng.choice([SFENCE, FENCE, FENCEI, 0]))
            elif q < .575: out.append(rng.choice([EBREAK, WFI]))
            elif q < .75: out.append(alu(rng))
            elif q < .88: out.append(mem_insn(rng, DB))
            elif q < .91: out += slow(rng)
            elif q < .92: out.append(0xFFFFFFFF if rng.random() < .5 else rng.choice([0x0000006B, 0x2B, 0x5B, 0x7B, 0x43, 0x07]))
            else: out.append(branch(rng, k, n))
        elif fam == 'vm':
            if q < .42: out.append(mem_insn(rng, DB))
            elif q < .50: out.append(amo(rng.choice(AMO_OPS + [2, 3]), wreg(rng), rng.choice(DB), rreg(rng)))
            elif q < .58: out.append(csr(rng.choice([2, 3]), wreg(rng), rng.choice([20, 21, 22]), rng.choice([CSRS['sstatus'], CSRS['mstatus']])))
            elif q < .63: out.append(rng.choice([ECALL, MRET, SRET, MRET, SFENCE]))
            elif q < .80: out.append(alu(rng) if rng.random() < .3 else opimm(rng, wreg(rng), rreg(rng)))
            elif q < .86:
                out += table_update(rng)
            elif q < .88: out += [csr(1, 0, 23, CSRS['satp']), SFENCE]
            else: out.append(branch(rng, k, n))
        elif fam == 'vmt':
            if q < .50: out += table_update(rng)
            elif q < .60: out.append(mem_insn(rng, [24, 25]))
            elif q < .90: out.append(alu(rng))
            elif q < .94: out += [csr(1, 0, 23, CSRS['satp']), SFENCE]
            else: out.append(b(rng.choice([0, 1, 4]), rreg(rng), rreg(rng), 8))
        elif fam == 'smc':
            if q < .30: out.append(opimm(rng, wreg(rng), rreg(rng)))
            elif q < .45: out.append(i(3, wreg(rng), 2, rng.choice(DB), 4 * rng.randrange(16)) if rng.random() < .5 else mem_store(rng))
            elif q < .62: out.append(branch(rng, k, n))
            elif q < .85:      # overwrite an instruction, fence, and maybe jump to it
                out.append(lw(20, 26, 4 * rng.randrange(32)))
                if rng.random() < .2: out += backlog(rng, 27, 2, 31)
                if rng.random() < .35:
                    # the patched line leaves the data cache while the fetch of it is under way
                    for k in rng.sample([21, 22, 23, 29, 30, 31], 6):
                        out += [lui(k, 4 * rng.randrange(1, 9)), r(0x33, k, 0, k, 28, 0)]
                    out += [('patch', rng.random()), FENCEI] + ['conflict'] * rng.choice([4, 5, 6, 6]) + ['goto']
                    continue
                out += [('patch', rng.random()), FENCEI]
                if rng.random() < .5:
                    out.append('goto')
            else: out += slow(rng)
        elif fam == 'dev':
            base = rng.choice(DB)
            if q < .22: out.append(rng.choice([lw(wreg(rng), base, rng.choice([0, 4, 8, 12])), sw(base, rreg(rng), rng.choice([0, 4, 8, 12]))]))
            elif q < .36: out.append(s(0, 24, rng.choice([20, 21, 22, rreg(rng)]), rng.choice([0, 0, 1])))
            elif q < .42: out.append(sw(25, rng.choice([22, rreg(rng)]), 0))
            elif q < .48: out.append(i(3, wreg(rng), rng.choice([0, 1, 4, 5]), rng.choice([24, 25]), rng.choice([0, 4, 2])))
            elif q < .55: out.append(csr_insn(rng))
            elif q < .60: out.append(rng.choice([ECALL, MRET, SRET]))
            elif q < .80: out.append(opimm(rng, wreg(rng), rreg(rng)))
            elif q < .84: out += slow(rng)
            elif q < .88: out.append(mem_insn(rng, [23]))
            else: out.append(branch(rng, k, n))
        else:
            raise KeyError(fam)
    if fam == 'smc':
        out = [NOP if isinstance(w, (tuple, str)) and k >= n - 2 else w for k, w in enumerate(out[:n])]
        safe = [k for k in range(1, n) if not isinstance(out[k], (tuple, str)) and out[k] != FENCEI
                and not isinstance(out[min(k + 1, n - 1)], tuple)] or [0]
        t = 0
        for k, w in enumerate(out):
            if isinstance(w, tuple):
                near = [y for y in safe if k < y < k + 14] or safe
                t = rng.choice(near if w[1] < .5 else safe)
                out[k] = sw(28, 20, 4 * t)
                ways = rng.sample([21, 22, 23, 29, 30, 31], 6)
            elif w == 'conflict':
                out[k] = lw(wreg(rng), ways.pop(), 4 * t)
            elif w == 'goto':
                out[k] = j(0, (t - k) * 4)
    return out[:n]


def trace(rng, ident, fam):
    n = rng.choice([24, 48, 96, 160])
    WMAX[0] = 15 if fam in ('vm', 'vmt') else 20
    words = code(rng, fam, n)
    tables = fam == 'vmt'
    fam = 'vm' if tables else fam
    x = [0] + [value(rng) for _ in range(31)]
    c = dict.fromkeys(CSR_ORDER, 0)
    priv, rv, ra = 3, 0, 0
    off = rng.choice([0, 0, 5, (1 << 32) - 200, -100])
    cmpv = rng.choice([off + rng.randrange(0, 900), off + rng.randrange(0, 300), 0, 1 << 62])
    cbase = CODE + rng.choice([0, 0, 4, 0x38, 0x3C, 0xFC0])
    pc = cbase + 4 * rng.randrange(n // 2)
    x[1] = cbase + 4 * rng.randrange(n)
    x[24], x[25] = DATA, DATA + 4 * rng.randrange(0, 64)
    x[26], x[27] = DATA + 0x800, DATA + 0x1000
    if fam in ('mem', 'mix') and rng.random() < .6:
        for k in DB:
            x[k] = DATA + CSTRIDE * rng.randrange(8) + 4 * rng.randrange(4)
    for k in CB:
        x[k] = cbase
    x[21], x[22] = 1, x[24]
    mem = {}
    c['misa'] = 0x40141103
    c['mtvec'] = cbase + 4 * rng.randrange(n // 3)

    tv, tv2 = rng.choice([0, 0, 1]), rng.choice([0, 0, 1])
    if fam in ('priv', 'vm', 'dev') or (fam in ('amo', 'win') and rng.random() < .3):
        for k in CSR_ORDER[:19]:
            c[k] = value(rng)
        c['mie'] = rng.getrandbits(12) & 0xBBB if rng.random() < .6 else 0
        c['mip'] = rng.getrandbits(12) & 0x333 & rng.getrandbits(12) if rng.random() < .5 else 0
        c['mideleg'] = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(12)])
        c['medeleg'] = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(16)])
        c['mstatus'] = rng.getrandbits(32) & 0x807FF9BB
        if (c['mstatus'] >> 11) & 3 == 2:
            c['mstatus'] ^= 0x800
        priv = rng.choice([0, 1, 3])
        c['satp'] = 0
        c['mtvec'], c['stvec'] = cbase + 4 * rng.randrange(n // 3) + tv, cbase + 4 * rng.randrange(n // 3) + tv2
        c['mepc'], c['sepc'] = cbase + 4 * rng.randrange(n), cbase + 4 * rng.randrange(n)
    if fam == 'vm':
        # some runs stay in supervisor mode with working tables that keep changing
        calm = tables or rng.random() < .35
        if calm:
            priv, c['medeleg'] = 1, 0xFFFFFFFF
            c['mstatus'] = c['mstatus'] & ~(1 << 17) | 1 << 18
        d = cbase - CODE
        c['satp'] = 0x80000000 | (rng.getrandbits(9) << 22) | (ROOT >> 12)
        c['mie'] = 0
        g = lambda p: calm or rng.random() < p
        for root in (ROOT, ROOT2):
            mem[root + 4 * (VCODE >> 22)] = (L2 >> 12) << 10 | 1
            mem[root + 4 * (VDATA >> 22)] = (L2B >> 12) << 10 | (1 if g(.95) else rng.choice([0, 5, 0x31]))
            mem[root + 4 * (VSUP >> 22)] = pte(rng, rng.choice([0x80000] * 4 + [0x80001, 0x80200]), g(.65))
            mem[root + 4 * (VPT >> 22)] = pte(rng, 0x80000, True)
            mem[root + 4 * (0x80000000 >> 22)] = pte(rng, 0x80000, g(.65))
        cg = calm or rng.random() < .85
        for p in range(3):
            mem[L2 + 4 * ((VCODE >> 12) + p & 0x3FF)] = pte(rng, (CODE >> 12) + p, cg) & ~(16 if calm else 0)
        for p in range(3):
            mem[L2B + 4 * p] = pte(rng, (DATA >> 12) + rng.choice([0, 0, 1]), g(.65))
        if rng.random() < .1:
            mem[L2B + 4] = (DATA >> 12) << 10 | 1
        if priv == 3 and rng.random() < .7:
            c['mstatus'] |= 1 << 17
        if priv != 3:
            pc += VCODE - CODE
        for k in CB:
            x[k] = rng.choice([CODE, VCODE, VCODE, VSUP + 0x1000]) + d
        c['stvec'] = rng.choice([VCODE, VCODE, CODE, VSUP + 0x1000]) + d + 4 * rng.randrange(n // 3) + tv2
        c['sepc'] = rng.choice([VCODE, VCODE, CODE, VSUP + 0x1000, 0x10000000]) + d + 4 * rng.randrange(n)
        c['mepc'] = rng.choice([VCODE, VCODE, CODE, VSUP + 0x1000]) + d + 4 * rng.randrange(n)
        x[24] = VDATA + 0x1000 if tables else rng.choice([VDATA + 0x1000, VDATA + 0x1000, VDATA])
        x[25] = VDATA + 0x2000
        x[26] = VSUP + (DATA & 0x3FFFFF)
        x[27] = rng.choice([DATA, 0x7FFFF000, 0, VDATA + 0x1000])
        x[20], x[21], x[22] = 1 << 18, 1 << 19, 1 << 17
        x[15], x[19] = VPT + 0x100000, VPT + (L2B & 0x3FFFFF)
        for k in (16, 17, 18):
            x[k] = pte(rng, (DATA >> 12) + (k - 16) % 2 if calm else (DATA >> 12) + rng.choice([0, 1, 1]), g(.6) and k < 18)
        x[23] = 0x80000000 | rng.getrandbits(9) << 22 | (ROOT2 >> 12)
    if fam == 'win':
        x[24] = DATA
    if fam == 'fp':
        for k in range(2, 20):
            x[k] = gen_unit.fp_value(rng) if rng.random() < .8 else x[k]
        for k in range(-64, 192):
            mem[DATA + 4 * k] = gen_unit.fp_value(rng)
    if fam == 'amo':
        for k in DB:
            x[k] = DATA + 4 * rng.randrange(3) + rng.choice([0, 0, 0x40])
        if rng.random() < .6:
            c['mie'] = 0
        rv, ra = rng.choice([(0, 0), (1, DATA), (1, DATA + 4), (1, DATA + 8)])
    if fam == 'smc':
        for k in range(32):
            w = rng.choice([opimm(rng, wreg(rng), rreg(rng)), addi(rng.randrange(2, 8), rng.randrange(1, 8), rng.randrange(2048)), branch(rng, rng.randrange(n), n, .8, .9)])
            mem[DATA + 0x800 + 4 * k] = w
        x[24], x[25], x[27] = DATA, DATA + 0x400, DATA + 0x1000
        x[20] = addi(2, 2, 1)  # stored over code if its load is jumped over
    if fam == 'dev':
        x[24], x[25], x[26], x[27] = UART, PLIC, TIMER, rng.choice([TIMER, XPS, XPS + 0x20, 0x0C000000, 0x0C002000])
        x[20], x[21], x[22], x[23] = 7, 5, 10, DATA
        c['mie'] = rng.choice([0, 0x80, 0x800, 0xBBB, 0x880])
        mem[0x10000004] = 0x6000
    c['sstatus'] = c['mstatus'] & 0x800DE133
    c['sie'] = c['mie'] & 0x333
    c['sip'] = c['mip'] & 0x333
    if fam == 'ic':
        paged, pc = paged_code(rng, cbase & ~0xFFF)
        mem.update(paged)
        c['mtvec'] = pc
    else:
        for k in range(n):
            mem[cbase + 4 * k] = words[k]
        for k in range(4):        # running off the end comes back
            mem[cbase + 4 * (n + k)] = j(0, -4 * (n + k) + 4 * rng.randrange(n))
    for k in range(-64, 192):
        mem.setdefault(DATA + 4 * k, value(rng) if rng.random() < .7 else 0)
    for k in range(0, 32):
        mem.setdefault(DATA + 0x1000 + 4 * k, value(rng))
    regions, last = [], None
    for a in sorted(mem):
        if last is not None and a == last + 4:
            regions[-1][1].append(mem[a])
        else:
            regions.append((a, [mem[a]]))
        last = a
    o = ['T %s %d %d' % (ident, rng.choice([60, 120, 200] if fam not in ('ev', 'ic', 'win') else [150, 300, 500]), 90000),
         'S %d %d %d %d' % (pc, priv, rv, ra),
         'X ' + ' '.join(map(str, x)),
         'C ' + ' '.join(str(c[k] & M32) for k in CSR_ORDER)]
    off &= (1 << 64) - 1
    cmpv &= (1 << 64) - 1
    o.append('M %d %d %d %d' % (off >> 32, off & M32, cmpv >> 32, cmpv & M32))
    lo = rng.choice([1, 1, 20, 100] if fam not in ('vm', 'smc') else [1, 1, 20, 100, 300, 1500])
    o.append('F %d %d %d %d %d' % (rng.getrandbits(31), lo, lo + rng.choice([0, 8, 100, 500, 900]), rng.choice([0, 0, 30, 90]), rng.choice([0, 1])))
    for a, w in regions:
        o.append('W %d %d %s' % (a, len(w), ' '.join(map(str, w))))
    o.append('E')
    return '\n'.join(o)
