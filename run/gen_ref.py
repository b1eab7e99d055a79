"""Machine states and code for single-stepping the reference interpreter."""
from enc import *

CODE, DATA, ROOT, L2, L2B = 0x80001000, 0x80010000, 0x80020000, 0x80021000, 0x80022000
VCODE, VDATA = 0x40001000, 0x40400000   # translated by L2 / L2B
VSUP = 0x40800000                       # superpage
NCODE = 48
DB = [24, 25, 26, 27]                   # data base registers, never written
CB = [28, 29, 30, 31]                   # code base registers, never written
UART, PLIC, TIMER = 0x10000000, 0x0C201004, 0x1FD0E000


def wreg(rng):
    return rng.choice([rng.randrange(24), rng.randrange(1, 24), rng.randrange(1, 8)])


def rreg(rng):
    return rng.choice([rng.randrange(24), rng.randrange(1, 8)])


def bad_encoding(rng):
    """register/immediate operations of no implemented extension"""
    while True:
        op = rng.choice([0x13, 0x33, 0x33])
        f3, f7, rs2 = rng.randrange(8), rng.randrange(128), rng.randrange(32)
        if op == 0x33:
            if (f3, f7) in RR or f7 == 1:
                continue
        else:
            if f3 not in (1, 5):
                continue
            if f3 == 1 and (f7 in (0, 20, 36, 52) or (f7 == 48 and rs2 in (0, 1, 2, 4, 5))):
                continue
            if f3 == 5 and (f7 in (0, 32, 48, 36) or (f7 == 52 and rs2 == 24) or (f7 == 20 and rs2 == 7)):
                continue
        return r(op, wreg(rng), f3, rreg(rng), rs2, f7)


def mem_insn(rng, bases):
    f3 = rng.choice([0, 1, 2, 2, 4, 5])
    al = [1, 2, 4, 4, 1, 2][f3]
    off = rng.randrange(-64, 64) * 4 + rng.randrange(0, 4, al)
    base = rng.choice(bases)
    if rng.random() < 0.5:
        return i(3, wreg(rng), f3, base, off)
    f3 &= 3
    return s(f3, base, rreg(rng), off)


def branch(rng, k, n):
    tgt = rng.randrange(n)
    if rng.random() < 0.3:
        tgt = min(n - 1, k + rng.randrange(1, 6))
    d = (tgt - k) * 4
    q = rng.randrange(10)
    if q < 6:
        return b(rng.choice([0, 1, 4, 5, 6, 7]), rreg(rng), rreg(rng), d)
    if q == 6:
        return b(rng.choice([2, 3]), rreg(rng), rreg(rng), d)
    if q < 9:
        return j(wreg(rng), d)
    return jalr(wreg(rng), rng.choice(CB), rng.randrange(0, n) * 4 + rng.choice([0, 0, 1]))


def csr_insn(rng):
    f3 = rng.choice([1, 2, 3, 5, 6, 7])
    n = rng.choice(list(CSRS.values()) + [CSRS[x] for x in ('mstatus', 'sstatus', 'mie', 'sie', 'mip', 'sip', 'mideleg', 'medeleg')])
    if rng.random() < 0.06:
        n = rng.choice([0xC01, 0xC81])
    elif rng.random() < 0.05:
        n = rng.choice([0xB00, 0x001, 0x3A0, 0xFFF, 0xC00])
    rs = rng.choice([rreg(rng), 0, rng.randrange(1, 24)])
    if n in (CSRS['mtvec'], CSRS['stvec'], CSRS['mepc'], CSRS['sepc']) and f3 < 4:
        rs = rng.choice(CB)
    if n == CSRS['satp'] and rng.random() < 0.8:
        f3, rs = rng.choice([2, 6]), 0
    return csr(f3, wreg(rng), rs, n)


def code(rng, fam, n):
    out = []
    for k in range(n):
        q = rng.random()
        if fam == 'alu':
            if q < .40: w = opimm(rng, wreg(rng), rreg(rng))
            elif q < .62: w = r(0x33, wreg(rng), *(lambda p: (p[0], rreg(rng), rreg(rng), p[1]))(rng.choice(RR)))
            elif q < .74: w = r(0x33, wreg(rng), *(lambda p: (p[0], rreg(rng), rreg(rng), p[1]))(rng.choice(MD)))
            elif q < .80: w = rng.choice([lui, auipc])(wreg(rng), rng.randrange(1 << 20))
            elif q < .88: w = mem_insn(rng, DB)
            elif q < .95: w = branch(rng, k, n)
            elif q < .98: w = bad_encoding(rng)
            else: w = rng.choice([FENCE, FENCEI])
        elif fam == 'priv':
            if q < .50: w = csr_insn(rng)
            elif q < .60: w = ECALL
            elif q < .70: w = rng.choice([MRET, SRET])
            elif q < .76: w = rng.choice([SFENCE, FENCE, WFI, FENCEI, 0x10500073])
            elif q < .84: w = opimm(rng, wreg(rng), rreg(rng))
            elif q < .92: w = mem_insn(rng, DB)
            elif q < .93: w = EBREAK
            else: w = branch(rng, k, n)
        elif fam == 'vm':
            if q < .50: w = mem_insn(rng, DB)
            elif q < .62: w = rng.choice([amo(rng.choice(AMO_OPS + [2, 3]), wreg(rng), rng.choice(DB), rreg(rng))])
            elif q < .70: w = csr(rng.choice([2, 3]), wreg(rng), rng.choice([20, 21, 22, 23]), rng.choice([CSRS['sstatus'], CSRS['mstatus']]))
            elif q < .76: w = rng.choice([ECALL, MRET, SRET, MRET, SFENCE])
            elif q < .86: w = opimm(rng, wreg(rng) % 20, rreg(rng))
            else: w = branch(rng, k, n)
        elif fam == 'amo':
            if q < .60: w = amo(rng.choice(AMO_OPS + [2, 2, 2, 3, 3, 3, 3]), wreg(rng), rng.choice(DB), rreg(rng), rng.randrange(4))
            elif q < .61: w = amo(rng.choice([5, 6, 7, 9, 17, 31]), wreg(rng), rng.choice(DB), rreg(rng))
            elif q < .80: w = mem_insn(rng, DB) if rng.random() < .5 else rng.choice([lw(wreg(rng), rng.choice(DB), 0), sw(rng.choice(DB), rreg(rng), 0)])
            elif q < .90: w = opimm(rng, wreg(rng), rreg(rng))
            else: w = branch(rng, k, n)
        elif fam == 'dev':
            base = rng.choice(DB)
            if q < .35: w = rng.choice([lw(wreg(rng), base, rng.choice([0, 4, 8, 12])), sw(base, rreg(rng), rng.choice([0, 4, 8, 12]))])
            elif q < .50: w = s(0, 24, rng.choice([20, 21, 22, rreg(rng)]), rng.choice([0, 1, 1]))
            elif q < .58: w = sw(25, rng.choice([22, rreg(rng)]), 0)
            elif q < .62: w = amo(2, wreg(rng), rng.choice(DB), 0)
            elif q < .75: w = csr_insn(rng)
            elif q < .82: w = rng.choice([ECALL, MRET, SRET])
            elif q < .92: w = opimm(rng, wreg(rng) % 20, rreg(rng))
            else: w = branch(rng, k, n)
        else:
            raise KeyError(fam)
        out.append(w)
    return out


def pte(rng, ppn, good):
    if good:
        fl = 0xCF | (rng.choice([0, 0x10])) | rng.choice([0, 0x20, 0x100])
    else:
        fl = rng.getrandbits(8) | (1 if rng.random() < .9 else 0)
        if rng.random() < .6:
            fl |= 0x40
    return (ppn << 10 | rng.choice([0, 0, 0x200]) | fl) & M32


def vm_tables(rng):
    """sparse page tables -> {address: word}"""
    w = {}
    g = lambda: rng.random() < .65
    def l1(vpn1, v): w[ROOT + 4 * vpn1] = v
    ptr = lambda ppn: (ppn << 10) | (1 if rng.random() < .95 else rng.choice([0, 5, 0x31]))
    l1(VCODE >> 22, ptr(L2 >> 12))
    l1(VDATA >> 22, ptr(L2B >> 12))
    sp = rng.choice([0x80000, 0x80000, 0x80000, 0x80001, 0x80200])
    l1(VSUP >> 22, pte(rng, sp, g()))
    l1(0x80000000 >> 22, pte(rng, 0x80000, g()))
    w[L2 + 4 * ((VCODE >> 12) & 0x3FF)] = pte(rng, CODE >> 12, rng.random() < .85)
    for p in range(-1, 2):
        w[L2B + 4 * (((VDATA >> 12) + 1 + p) & 0x3FF)] = pte(rng, (DATA >> 12) + rng.choice([0, 0, 1]), g())
    if rng.random() < .1:  # pointer at the last level
        w[L2B + 4 * (((VDATA >> 12) + 1) & 0x3FF)] = (DATA >> 12) << 10 | 1
    return w


def trace(rng, ident, fam):
    n = NCODE
    words = code(rng, fam, n)
    x = [0] + [value(rng) for _ in range(31)]
    c = dict.fromkeys(CSR_ORDER, 0)
    priv, rv, ra = 3, 0, 0
    t0, dt = rng.choice([0, 1000, 0xFFFFFFF0]), rng.choice([0, 1, 1, 7])
    off = rng.choice([0, 0, 5, (1 << 32) - 20, -100])
    cmpv = rng.choice([t0 + off + rng.randrange(-5, 40), 0, 1 << 62, t0 + off + 12])
    pc = CODE + 4 * rng.randrange(n // 2)
    x[24], x[25] = DATA, DATA + 4 * rng.randrange(0, 64)
    x[26], x[27] = DATA + 0x800, DATA + 0x1000
    for k in CB:
        x[k] = CODE
    mem = {}
    refonly = rng.choice([0, 0, 1])
    c['misa'] = 0x40141103

    def consistent():
        c['sstatus'] = c['mstatus'] & 0x800DE133
        c['sie'] = c['mie'] & 0x333
        c['sip'] = c['mip'] & 0x333
    if fam in ('priv', 'vm', 'dev', 'amo'):
        for k in CSR_ORDER[:19]:
            c[k] = value(rng)
        c['mie'] = rng.getrandbits(12) & 0xBBB if rng.random() < .6 else 0
        c['mip'] = rng.getrandbits(12) & 0xBBB & rng.getrandbits(12) if rng.random() < .7 else 0
        c['mideleg'] = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(12)])
        c['medeleg'] = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(16)])
        c['mstatus'] = rng.getrandbits(32) & 0x807FF9BB
        if (c['mstatus'] >> 11) & 3 == 2:
            c['mstatus'] ^= 0x800
        tv = rng.choice([0, 0, 1, 1, 2, 3])
        tv2 = rng.choice([0, 0, 1, 1, 2, 3])
        priv = rng.choice([0, 1, 3])
        c['satp'] = 0
        c['mtvec'], c['stvec'] = CODE + 4 * rng.randrange(n // 3) + tv, CODE + 4 * rng.randrange(n // 3) + tv2
        c['mepc'], c['sepc'] = CODE + 4 * rng.randrange(n), CODE + 4 * rng.randrange(n)
    if fam == 'vm':
        c['satp'] = 0x80000000 | (rng.getrandbits(9) << 22) | (ROOT >> 12)
        if rng.random() < .7:
            c['mie'] = 0
        mem.update(vm_tables(rng))
        if priv == 3 and rng.random() < .7:
            c['mstatus'] |= 1 << 17
        if priv != 3:
            pc = VCODE + (pc - CODE)
        for k in CB:
            x[k] = rng.choice([CODE, VCODE, VSUP + 0x1000])
        c['stvec'] = rng.choice([VCODE, VCODE, CODE, VSUP + 0x1000]) + 4 * rng.randrange(n // 3) + tv2
        c['sepc'] = rng.choice([VCODE, CODE, VSUP + 0x1000, 0x10000000]) + 4 * rng.randrange(n)
        c['mepc'] = rng.choice([VCODE, VCODE, CODE, VSUP + 0x1000]) + 4 * rng.randrange(n)
        x[24] = rng.choice([VDATA + 0x1000, VDATA])
        x[25] = VDATA + 0x2000
        x[26] = VSUP + (DATA & 0x3FFFFF)
        x[27] = rng.choice([DATA, 0x7FFFF000, 0])
        x[20], x[21], x[22], x[23] = 1 << 18, 1 << 19, 1 << 17, 3 << 18
        rv, ra = rng.choice([(0, 0), (1, DATA), (1, DATA + 0x1000)])
    if fam == 'amo':
        for k in DB:
            x[k] = DATA + 4 * rng.randrange(3)
        c['mie'] = 0
        rv, ra = rng.choice([(0, 0), (1, DATA), (1, DATA + 4), (1, DATA + 8)])
    if fam == 'dev':
        x[24], x[25], x[26], x[27] = UART, PLIC, TIMER, rng.choice([TIMER, DATA, 0x10000004])
        x[20], x[21], x[22], x[23] = 7, 5, 10, rng.getrandbits(8)
        c['mie'] = rng.choice([0, 0x80, 0x800, 0xBBB, 0x880])
        mem[0x10000004] = 0x6000
    consistent()
    for k in range(n):
        mem[CODE + 4 * k] = words[k]
    for k in range(-64, 192):
        mem[DATA + 4 * k] = value(rng) if rng.random() < .7 else 0
    for k in range(0, 32):
        mem[DATA + 0x1000 + 4 * k] = value(rng)
    regions, last = [], None
    for a in sorted(mem):
        if last is not None and a == last + 4:
            regions[-1][1].append(mem[a])
        else:
            regions.append((a, [mem[a]]))
        last = a
    o = []
    steps = rng.choice([8, 16, 24, 40])
    o.append('T %s %d %d %d %d' % (ident, steps, refonly, t0, dt))
    o.append('S %d %d %d %d' % (pc, priv, rv, ra))
    o.append('X ' + ' '.join(map(str, x)))
    o.append('C ' + ' '.join(str(c[k] & M32) for k in CSR_ORDER))
    off &= (1 << 64) - 1
    cmpv &= (1 << 64) - 1
    o.append('M %d %d %d %d' % (off >> 32, off & M32, cmpv >> 32, cmpv & M32))
    for a, w in regions:
        o.append('W %d %d %s' % (a, len(w), ' '.join(map(str, w))))
    for a in (CODE - 0x1000, CODE, DATA - 0x1000, DATA, DATA + 0x1000, ROOT, L2, L2B):
        o.append('G %d 1024' % a)
    o.append('E')
    return '\n'.join(o)
