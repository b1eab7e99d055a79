"""Scripts for units driven directly."""
import enc


def s32(x):
    x &= 0xFFFFFFFF
    return x


def queues(rng, n):
    out = {}
    for k in range(n):
        kind = k % 4
        ident = 'q%d_%d' % (kind, k)
        stop = 7 if kind in (0, 2) else 8
        style = rng.random()
        pw, pr = rng.choice([(0.9, 0.2), (0.2, 0.9), (0.5, 0.5), (0.8, 0.7), (1, 1), (0.95, 0.95), (1, 0)])
        size, ops = 0, []
        for _ in range(rng.randint(5, 80)):
            if rng.random() < 0.05:
                pw, pr = rng.choice([(0.9, 0.2), (0.2, 0.9), (0.5, 0.5), (0.8, 0.7), (1, 1), (0, 1), (1, 0)])
            op = 0
            if rng.random() < (0.02 if style < 0.7 else 0):
                op |= 1
            if rng.random() < (0.06 if style < 0.6 else 0):
                op |= 2
            split = rng.random() < 0.5
            base = 0 if op & 3 else size
            w = rng.random() < pw and base < stop
            r = rng.random() < pr
            if split and op & 1:
                w = False
            mini = w and kind == 2 and base + 2 <= 8 and rng.random() < 0.2
            op |= (4 if w else 0) | (8 if r else 0) | (16 if mini else 0) | (32 if split else 0)
            ops.append(op)
            if op & 1:
                size = 0
            else:
                see = base if split else base + (1 if w else 0)
                size = base + (1 if w else 0) + (1 if mini else 0) - (1 if r and see else 0)
        out[ident] = 'Q %s %d %d %s' % (ident, kind, len(ops), ' '.join(map(str, ops)))
    return out


def _word(rng):
    x = rng.random()
    w = rng.getrandbits(32)
    if x < 0.3:
        return w & ~0x7F | 0x63
    if x < 0.6:
        return w & ~0x7F | 0x6F
    if x < 0.7:
        return w & ~0x7F | 0x67
    if x < 0.85:
        return w & ~0x7F | rng.getrandbits(7)
    return w


def _pc(rng):
    return rng.choice([rng.getrandbits(32) & ~3, rng.getrandbits(32) & ~3, 0x80000000 + 4 * rng.getrandbits(8), 0, 0xFFFFFFFC,
                       0x7FFFFFFC, 0x80000000, rng.getrandbits(12) & ~3, (rng.getrandbits(32) | 0xFFF00000) & ~3])


def words(rng, n):
    """every opcode; every single immediate bit, and all of them but one, of branches and jumps; random words"""
    out = {}
    ws = [o | (f << 12) for o in range(128) for f in range(8)]
    for o in (0x63, 0x6F, 0x67):
        for b in range(7, 32):
            ws += [o | 1 << b, o | (0xFFFFFF80 ^ (1 << b)), o | (0xFFFFFFFF >> (32 - b)) & ~0x7F, o | (0xFFFFFFFF << b) & 0xFFFFFF80]
    ws += [_word(rng) for _ in range(n * 100)]
    for k in range(0, len(ws), 100):
        ident = 'd%d' % (k // 100)
        c = ws[k:k + 100]
        out[ident] = 'D %s %d %s' % (ident, len(c), ' '.join('%d %d' % (_pc(rng), w & 0xFFFFFFFF) for w in c))
    return out


def blocks(rng, rounds):
    """all 256 kind vectors with all 16 direction vectors; the predicted address right, sequential, or another"""
    out = {}
    for r in range(rounds):
        cs = []
        for kinds in range(256):
            for dirs in range(16):
                t = [_pc(rng) for _ in range(4)]
                seq = _pc(rng)
                nxt = rng.choice([seq, rng.choice(t), rng.choice(t), _pc(rng)])
                cs.append('%d %d %d %d %s' % (nxt, seq, dirs, kinds, ' '.join(map(str, t))))
        for k in range(0, len(cs), 64):
            ident = 'k%d_%d' % (r, k // 64)
            c = cs[k:k + 64]
            out[ident] = 'K %s %d %s' % (ident, len(c), ' '.join(c))
    return out


RAM0, RAM1 = 0x80000000, 0xC0000000


def _maddr(rng, pool):
    if pool and rng.random() < 0.7:
        return (rng.choice(pool) + rng.choice([0, 0, 0, 1, 2, 3, 4, -4, -1, 8])) & 0xFFFFFFFF
    a = rng.choice([RAM0 + rng.getrandbits(30), RAM0 + rng.getrandbits(6), RAM1 - 1 - rng.getrandbits(6), RAM0 - 1 - rng.getrandbits(5),
                    RAM1 + rng.getrandbits(5), rng.getrandbits(32), rng.getrandbits(5), 0xFFFFFFFF - rng.getrandbits(5),
                    0x10000000 + rng.getrandbits(5), 0x0C201000 + rng.getrandbits(4), 0x1FD0E000 + rng.getrandbits(5)])
    pool.append(a)
    return a


def memory(rng, n):
    out = {}
    for k in range(n):
        ident, ops, pool = 'm%d' % k, [], []
        z = rng.random() < 0.01
        for j in range(rng.randint(10, 60)):
            x = rng.random()
            a = _maddr(rng, pool)
            ram = RAM0 <= a < RAM1
            if x < 0.3:
                ops.append('r %d' % a)
            elif x < 0.6:
                ops.append('w %d %d' % (a, rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 0xFF, 0xFFFFFFFF, 1 << rng.randrange(32)])))
            elif x < 0.7 and ram:
                ops.append('t %d %d %d' % (a, min(rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 16]), RAM1 - a), rng.getrandbits(16)))
            elif x < 0.82 and ram:
                ops.append('f %d %d' % (a, min(rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 16]), RAM1 - a)))
            elif x < 0.9:
                s = rng.choice([0, 1, 2, 4, 8, 64, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x7FFFFFFF, (RAM1 - a) & 0x7FFFFFFF, (RAM1 - a + 1) & 0x7FFFFFFF])
                ops.append('i %d %d' % (a, s))
            elif x < 0.93 and ram:
                ops.append('p %d' % (a & ~3))
            elif x < 0.95 and (not ram or RAM1 - a < 60):
                s = rng.choice([0, 1, 2, 4, 64])
                if not ram or s == 0 or a + s > RAM1:
                    ops.append('x %d %d %d' % (a, s, rng.getrandbits(1)))
            elif z and x > 0.97:
                ops.append('z')
                z = False
        out[ident] = 'M %s %d %s' % (ident, len(ops), ' '.join(ops))
    return out


TIMER, DMA, UART, PLIC = 0x1FD0E000, 0x1FD0F000, 0x10000000, 0x0C000000


def devices(rng, n):
    out = {}
    for k in range(n):
        ident, ops = 'p%d' % k, []
        t = rng.choice([0, rng.getrandbits(20), (1 << 32) - rng.getrandbits(4), rng.getrandbits(62)])
        ram = RAM0 + rng.choice([0, 0x1000, 0x3FFFFFC0, rng.getrandbits(29) & ~3])
        step = rng.choice([1, 1, 3, 1000, 1 << 31])

        def tick():
            nonlocal t
            t = min(t + rng.randint(0, step), (1 << 63) - 1)
            ops.append('T %d %d' % (t >> 32, t & 0xFFFFFFFF))
        tick()
        focus = rng.choice(['timer', 'dma', 'irq', 'any', 'any'])
        for j in range(rng.randint(10, 60)):
            x = rng.random()
            if x < 0.2:
                tick()
                continue
            what = focus if focus != 'any' and rng.random() < 0.7 else rng.choice(['timer', 'dma', 'uart', 'plic', 'irq', 'other'])
            if what == 'timer':
                a = TIMER + rng.choice([0, 4, 8, 12, 8, 12, 16, 20])
                v = rng.choice([0, 0xFFFFFFFF, t & 0xFFFFFFFF, (t + rng.randint(-2, 5)) & 0xFFFFFFFF, t >> 32, ((t >> 32) + 1) & 0xFFFFFFFF, rng.getrandbits(32)])
                f3 = 2
            elif what == 'dma':
                a = DMA + rng.choice([0, 4, 8, 12, 12, 16, 20])
                v = rng.choice([ram, ram + rng.randint(0, 40), ram + rng.randint(-8, 8), 0x40000000, 0xBFFFFFFE, 0xBFFFFFF0]) & 0xFFFFFFFF
                if a == DMA + 8:
                    v = rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 16, 31, 0x40000001, 0xFFFFFFFF])
                if a >= DMA + 12:
                    v = rng.choice([1, 3, 3, 2, 0, 7, 0xFFFFFFFF])
                f3 = 2
            elif what == 'irq':
                a, v = rng.choice([(UART + 1, 7), (UART + 1, 5), (UART + 1, rng.getrandbits(8)), (0x0C201004, 10), (0x0C201004, 11),
                                   (0x0C201004, rng.getrandbits(6)), (DMA + 12, 3), (DMA + 12, 1)])
                f3 = 0 if a & 3 else rng.choice([0, 2])
            elif what == 'uart':
                a, v, f3 = UART + rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 8, 0xFF, 0x100]), rng.getrandbits(32), 0
            elif what == 'plic':
                a, v, f3 = PLIC + (rng.getrandbits(21) & ~3), rng.getrandbits(32), 2
            else:
                a = rng.choice([0x1FB00000, PLIC + 0x210000, UART - 4, TIMER + 0x100, DMA + 0x100, TIMER + 0xFC, DMA + 0xFC, 0x20000000, RAM0])
                v, f3 = rng.getrandbits(32), 2
            if a % 4 == 0 and rng.random() < 0.2 and not (TIMER <= a < TIMER + 16 or DMA <= a < DMA + 20):
                f3 = rng.choice([0, 1, 2])
            if rng.random() < 0.3:
                ops.append('L %d %d' % (a, f3 | (rng.choice([0, 4]) if f3 < 2 else 0)))
            else:
                ops.append('S %d %d %d' % (a, v, f3))
            if what == 'dma' or rng.random() < 0.15:
                b = (ram + rng.randint(-4, 48)) & 0xFFFFFFFF
                ops.append('R %d' % b if rng.random() < 0.5 else 'W %d %d' % (b, rng.getrandbits(32)))
        out[ident] = 'P %s %d %s' % (ident, len(ops), ' '.join(ops))
    return out


def images(rng, n):
    out = {}
    for k in range(n):
        ident = 'i%d' % k
        mode = 0 if k % 6 else 1 + (k // 6) % 2
        size = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 63, 64, 100, 4095, 4096, 4097, rng.randrange(70000)]) if mode == 0 else \
            rng.choice([1, 2, 4096, 100000])
        addrs = [0, 4, 8, 12, 16, 0x10000000, 0x10000004, 0x10000008, 0x0C200004, 0x1FD0E000, RAM1 - 4]
        for c in (0, size & ~3):
            addrs += [RAM0 + c + 4 * j for j in range(-3, 4) if 0 <= c + 4 * j]
        addrs += [RAM0 + 4 * rng.randrange(0, max(1, size // 4) + 3) for _ in range(20)]
        out[ident] = 'T %s\nI %d %d %d %d\nA %d %s\nE' % (
            ident, mode, size, rng.randint(1, 90), rng.randrange(251), len(addrs), ' '.join(map(str, addrs)))
    return out


CK = dict(magic=0x006d6552, ver=2, ram=1 << 30)
IO = [(0, 0x2000), (UART, 0x100), (PLIC, 0x210000), (TIMER, 0x100)]


def checkpoints(rng, n):
    """complete files, files cut or broken at every kind of boundary, files with one wrong field"""
    out = {}
    for k in range(n):
        ident, style = 'k%d' % k, rng.random()
        h = [CK['magic'], CK['ver'], rng.choice([0, 1, 3, 3, 0x8003, 0xFFFD]), CK['ram'], 4]
        opened = rng.choice([0, 0, 0, 1])
        io = [list(x) for x in IO]
        if rng.random() < 0.4:
            io[3][1] = rng.choice([0, 4, 6, 64, 255, 256, 257, 1024])
        cut, broken = -1, 0
        pre = 16 + 236 + 8
        total = pre + (1 << 30) + sum(8 + s for _, s in io)
        if style < 0.4:
            ends = [0, 4, 6, 8, 12, 16, 16 + 4 * 32, 16 + 4 * 53, 16 + 4 * 54, 16 + 228, 16 + 230, 16 + 232, 16 + 236, pre, pre + 4096]
            p = pre + (1 << 30)
            ends.append(p)
            for _, s in io:
                ends += [p + 4, p + 8, p + 8 + s]
                p += 8 + s
            cut = rng.choice(ends + ends[-13:]) + rng.choice([0, 0, -1, 1, -4, 3, 17])
            if rng.random() < 0.45:
                cut = rng.randrange(0, pre)
            cut = max(0, cut)
            if rng.random() < 0.15:
                cut = total - 1
            broken = int(rng.random() < 0.3)
        elif style < 0.62:
            w = rng.randrange(8)
            if w == 0:
                h[0] ^= 1 << rng.randrange(32)
            elif w == 1:
                h[1] = rng.choice([0, 1, 3, 0x102, 0x8002])
            elif w == 2:
                h[3] = rng.choice([0, 1 << 29, 1 << 31, (1 << 30) + 4, (1 << 30) - 1])
            elif w == 3:
                h[4] = rng.choice([0, 1, 3, 5, 0x10004])
                if h[4] == 5:
                    io.append([DMA, 0x100])
                elif h[4] < 4:
                    io = io[:h[4]]
            elif w == 4:
                io[rng.randrange(4)][0] += rng.choice([4, 0x100, 0x1000])
            elif w == 5:
                io[rng.randrange(3)][1] += rng.choice([4, -4, 0x100])
            elif w == 6:
                a, b = rng.sample(range(4), 2)
                io[a], io[b] = io[b], io[a]
            else:
                opened = 2
        st = [0] + [rng.getrandbits(32) for _ in range(56)] + [rng.getrandbits(1), rng.getrandbits(1)]
        st[53] &= ~3
        ram = {rng.choice([0, 4, 8, (1 << 30) - 4, (1 << 30) - 8, 4 * rng.getrandbits(28), 4 * rng.getrandbits(10)]): rng.getrandbits(32)
               for _ in range(rng.randint(0, 12))}
        lines = ['T ' + ident, 'K %d %s %d' % (opened, ' '.join(map(str, h)), rng.getrandbits(32)),
                 'X ' + ' '.join(map(str, st)), 'C %d %d' % (rng.choice([0, 0, rng.getrandbits(31)]), rng.getrandbits(31)),
                 'R %d %s' % (len(ram), ' '.join('%d %d' % x for x in ram.items()))]
        addrs = [RAM0 + a for a in ram] + [RAM0 + a + 4 for a in ram if a + 8 <= 1 << 30] + [RAM0, RAM1 - 4, 0, 4, DMA, 0x2000, UART, PLIC + 0x200004]
        for b, s in io:
            w = {o: rng.getrandbits(32) for o in [rng.choice([0, 4, max(0, s - 4) & ~3, 4 * rng.randrange(s // 4 + 1)]) for _ in range(rng.randint(0, 4))]
                 if o < s}
            lines.append('G %d %d %d %s' % (b, s, len(w), ' '.join('%d %d' % x for x in w.items())))
            addrs += [b + o for o in w] + [b + o + 4 for o in w] + [b + ((s + 3) & ~3)]
        lines += ['Z %d %d' % (cut, broken), 'A %d %s' % (len(addrs), ' '.join(map(str, addrs))), 'E']
        out[ident] = '\n'.join(lines)
    return out


def lockstep(rng, n):
    """pairs of states equal up to a chosen field; synchronisations; memory hand-over"""
    out = {}
    for k in range(n):
        ident, ops = 'l%d' % k, []
        big = rng.random() < 0.01
        pool = [rng.choice([RAM0 + 4 * rng.getrandbits(8), RAM0 + 4 * rng.getrandbits(8), RAM1 - 4, RAM1 - 8, 4 * rng.getrandbits(11), 0x1FFC, 0x2000,
                            UART, UART + 0xFC, UART + 0x100, PLIC, PLIC + 0x200004, PLIC + 0x20FFFC, PLIC + 0x210000, TIMER, TIMER + 0xFC, DMA + 16, DMA + 0x100])
                for _ in range(8)]

        def state():
            s = [rng.choice([0, 1, 0xFFFFFFFF, rng.getrandbits(32), rng.getrandbits(32)]) for _ in range(66)]
            for i in (57, 59, 60, 61, 64):
                s[i] = int(rng.random() < 0.4)
            s[58] = rng.choice([0x34402573, 0x14402573, 0x344020F3, 0x144120F3, 0x34402572, 0x34302573, 0x10500073, 0x00100073, rng.getrandbits(32)])
            return s
        dut = state()
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < 0.62:
                if rng.random() < 0.5:
                    dut = state()
                ref = dut[:] + [rng.choice([0, 1, 3])]
                info = [dut[58], dut[59], dut[60], dut[61], int(rng.random() < 0.2)]
                if info[1]:
                    if rng.random() < 0.5:
                        info[0] = rng.getrandbits(32)
                y = rng.random()
                if y < 0.75:
                    # one field, anywhere
                    f = rng.choice(list(range(66)) + [53, 54, 55, 57, 57, 36, 36, 36, 49, 49] + [100, 101, 102, 103])
                    if f >= 100:
                        info[f - 100] = info[f - 100] ^ 1 if f > 100 else info[0] ^ (1 << rng.randrange(32))
                    elif f in (57, 59, 60, 61, 64):
                        ref[f] ^= 1
                    else:
                        ref[f] ^= rng.choice([1 << rng.randrange(32), 0x880, 0x80, 0x800, 0x222])
                elif y < 0.82:
                    for f in rng.sample(range(53), 3):
                        ref[f] ^= rng.choice([0, 1, 0x880])
                ops.append('D ' + ' '.join(map(str, dut)))
                ops.append('N ' + ' '.join(map(str, ref + info)))
                ops.append('S %d %d %d' % (rng.random() < 0.9, rng.choice([0, 0, rng.getrandbits(31)]), rng.getrandbits(32)))
                if rng.random() < 0.3:
                    ops.append('Q')
            elif x < 0.72:
                dut = state()
                ops += ['D ' + ' '.join(map(str, dut)), 'Y %d %d' % (rng.choice([0, 1, 3]), rng.getrandbits(32))]
            elif x < 0.84:
                for _ in range(rng.randint(1, 4)):
                    ops.append('%s %d %d' % (rng.choice('WV'), rng.choice(pool), rng.getrandbits(32)))
                a = rng.choice([p for p in pool] + [RAM0]) + rng.choice([0, 0, 1, 2, 3, -1])
                ops.append('M %d %d' % (a & 0xFFFFFFFF, rng.choice([0, 1, 2, 3, 4, 5, 8, 12])))
                ops += ['R %d' % p for p in pool[:3]]
            elif x < 0.9:
                ops.append('F %d %d' % (rng.randrange(3), rng.randrange(2)))
            elif big:
                for _ in range(4):
                    ops.append('%s %d %d' % (rng.choice('WV'), rng.choice(pool), rng.getrandbits(32)))
                ops.append(rng.choice(['K %d' % rng.choice([0, 1, 3]), 'G', 'I %d' % rng.choice([0, 4, 512, 1024, 1 << 30])]))
                ops += ['R %d' % p for p in pool]
        out[ident] = 'L %s %d %s' % (ident, len(ops), ' '.join(ops))
    return out


CSRN = [0x305, 0x341, 0x342, 0x304, 0x344, 0x343, 0x340, 0x300, 0x303, 0x302, 0x141, 0x105, 0x142, 0x140, 0x143, 0x100, 0x104, 0x144, 0x180]
# weights of alu, multiply, divide, branch, jump, load, store, atomic, upper, csr
EXUMIX = [(6, 1, 1, 2, 1, 1, 1, 1, 1, .3, .5), (8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0), (1, 6, 3, 0, 0, 0, 0, 0, 0, 0, 0), (2, 4, 4, 2, 1, 0, 0, 0, 0, 0, 0),
          (1, 0, 0, 6, 3, 0, 0, 0, 0, 0, 0), (1, 1, 0, 1, 0, 3, 3, 3, 0, 0, 0), (3, 3, 0, 0, 0, 0, 0, 0, 1, 1, 0), (1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 8)]


def _exu_word(rng, mix, rd, rs1, rs2):
    k = rng.choices(range(11), mix)[0]
    if k == 0:
        if rng.random() < 0.5:
            return enc.opimm(rng, rd, rs1)
        f3, f7 = rng.choice(enc.RR)
        return enc.r(0x33, rd, f3, rs1, rs2, f7)
    if k == 1:
        return enc.r(0x33, rd, rng.randrange(4), rs1, rs2, 1)
    if k == 2:
        return enc.r(0x33, rd, 4 + rng.randrange(4), rs1, rs2, 1)
    if k == 3:
        return enc.b(rng.choice([0, 1, 4, 5, 6, 7]), rs1, rs2, 4 if rng.random() < .1 else rng.randrange(-2048, 2048) * 2)
    if k == 4:
        return enc.j(rd, rng.randrange(-(1 << 19), 1 << 19) * 2) if rng.random() < 0.4 else enc.jalr(rd, rs1, rng.randrange(-2048, 2048))
    if k == 5:
        return enc.i(3, rd, rng.choice([0, 1, 2, 4, 5]), rs1, rng.choice([rng.randrange(-2048, 2048), 0]))
    if k == 6:
        return enc.s(rng.choice([0, 1, 2]), rs1, rs2, rng.choice([rng.randrange(-2048, 2048), 0]))
    if k == 7:
        f5 = rng.choice(enc.AMO_OPS + [2, 3])
        return enc.amo(f5, rd, rs1, 0 if f5 == 2 else rs2, rng.randrange(4))
    if k == 8:
        return (enc.lui if rng.random() < 0.5 else enc.auipc)(rd, rng.getrandbits(20))
    if k == 10:
        return fp_word(rng, rd, rs1, rs2)
    return enc.csr(rng.choice([1, 2, 3, 5, 6, 7]), rd, rs1, rng.choice(CSRN))


def units(rng, n, mixes=None):
    out = {}
    for k in range(n):
        ident = 'e%d' % k
        mix = rng.choice(mixes or EXUMIX)
        regs = [fp_value(rng) if rng.random() < mix[10] else enc.value(rng) for _ in range(63)]
        T = rng.randint(20, 60)
        live, rob, flag, cyc = [], rng.randrange(64), 0, []
        wild = rng.random() < 0.15
        pk, pc_, pf = rng.choice([(0, 0, 0), (.1, .2, .02), (.2, .3, 0), (.05, .5, .05), (0, .3, .1)])
        dens = rng.choice([.3, .7, 1.5, 3])
        busy = {}
        for t in range(T):
            fl = kill = clear = 0
            if rng.random() < pf:
                fl, live = 1, []
            elif wild:
                if rng.random() < pk:
                    kill = rng.getrandbits(16) & rng.getrandbits(16)
                if rng.random() < pc_:
                    clear = rng.getrandbits(16)
            else:
                if live and rng.random() < pk:
                    j = rng.randrange(len(live))
                    kill = 1 << live[j]
                    for x in live[j:]:
                        clear |= 1 << x
                    live = live[:j]
                if live and rng.random() < pc_:
                    x = live.pop(rng.randrange(len(live)))
                    clear |= 1 << x
            ni = int(dens) + (1 if rng.random() < dens - int(dens) else 0)
            if t > T - rng.choice([2, 22, 22]):
                ni = 0
            c = []
            for _ in range(ni):
                rd, r1, r2 = rng.choice([0, 1, 5, 6, 7, 31]), rng.choice([0, 1, 5, 6, 7, 31]), rng.choice([0, 1, 5, 6, 7, 31])
                if rng.random() < .8:
                    rd = rd or 9
                w = _exu_word(rng, mix, rd, r1, r2)
                s1, s2 = rng.randrange(1, 64), rng.randrange(1, 64)
                if rng.random() < .1:
                    s2 = s1
                pc = _pc(rng)
                m = sum(1 << x for x in live)
                if wild:
                    m = rng.getrandbits(16) & rng.getrandbits(16)
                tag = rng.randrange(16)
                if w & 127 in (0x63, 0x67, 0x6F):
                    free = [x for x in range(16) if x not in live]
                    if not free:
                        continue
                    tag = rng.choice(free)
                    if not wild:
                        live.append(tag)
                x = rng.random()
                if w & 127 == 0x63:
                    o = (w >> 31) * -4096 + ((w >> 7) & 1) * 2048 + ((w >> 25) & 63) * 32 + ((w >> 8) & 15) * 2
                    nxt = pc + o
                elif w & 127 == 0x6F:
                    o = (w >> 31) * -(1 << 20) + ((w >> 12) & 255) * 4096 + ((w >> 20) & 1) * 2048 + ((w >> 21) & 1023) * 2
                    nxt = pc + o
                else:
                    i = w >> 20
                    nxt = ((regs[s1 - 1] if r1 else 0) + (i - 4096 if i & 2048 else i)) & ~1
                if x < .2:
                    nxt = rng.choice([pc + 4, nxt + 4, _pc(rng), nxt ^ 1 << rng.randrange(32)])
                dp = rng.randrange(1, 64)
                c.append('%d %d %d %d %d %d %d %d %d %d %d %d %d %d' % (
                    w, pc, dp, s1, s2, tag, m, rob, flag, rng.random() < .6, nxt & 0xFFFFFFFF, rng.getrandbits(1), enc.value(rng),
                    rng.choice([0, 0, 1, 2, 5])))
                rob += 1
                if rob == 64:
                    rob, flag = 0, 1 - flag
            cyc.append('%d %d %d %d %d %s' % (fl, kill, clear, enc.value(rng), len(c), ' '.join(c)))
        out[ident] = 'E %s %s %d %s' % (ident, ' '.join(map(str, regs)), T, ' '.join(cyc))
    return out


# (funct7, funct3 choices or None for a rounding mode, rs2 choices or None for a register)
FPOPS = [(0, None, None), (4, None, None), (8, None, None), (12, None, None), (0x2C, None, [0]), (0x10, [0, 1, 2], None), (0x14, [0, 1], None),
         (0x50, [0, 1, 2], None), (0x60, None, [0, 1]), (0x68, None, [0, 1]), (0x70, [1], [0])]


def fp_word(rng, rd, rs1, rs2, rs3=None):
    """rs3: also fused multiply-add"""
    if rs3 is not None and rng.random() < .25:
        return rs3 << 27 | rs2 << 20 | rs1 << 15 | rng.choice([0, 1, 2, 3, 4, 7]) << 12 | rd << 7 | rng.choice([0x43, 0x47, 0x4B, 0x4F])
    f7, f3, r2 = rng.choice(FPOPS[:4] + FPOPS)
    f3 = rng.choice(f3 or [0, 1, 2, 3, 4, 0, 7])
    return enc.r(0x53, rd, f3, rs1, rng.choice(r2) if r2 else rs2, f7)


def fp_value(rng):
    x = rng.random()
    s = rng.getrandbits(1) << 31
    if x < .12:
        return s | rng.choice([0, 0x7F800000, 0x7FC00000, 0x7F800001, 0x7FFFFFFF, 0x7FA00000, 1, 2, 0x7FFFFF, 0x800000, 0x800001, 0x7F7FFFFF,
                               0x3F800000, 0x3F7FFFFF, 0x3F800001, 0x40000000, 0x4B000000, 0x4B7FFFFF, 0x4B800000, 0x4EFFFFFF, 0x4F000000,
                               0x4F7FFFFF, 0x4F800000, 0x4F000001, 0x3F000000, 0x3EFFFFFF, 0x3F000001, 0x3FC00000])
    man = rng.choice([0, 1, 0x7FFFFF, 0x400000, 1 << rng.randrange(23), (1 << rng.randrange(24)) - 1, 0x7FFFFF ^ ((1 << rng.randrange(24)) - 1),
                      rng.getrandbits(23), rng.getrandbits(23), rng.getrandbits(23) & rng.getrandbits(23), rng.getrandbits(12) << 11])
    if x < .2:
        return s | man                                    # subnormal
    e = rng.choice([rng.randrange(1, 255), 127 + rng.randrange(-30, 31), 127 + rng.randrange(-3, 4), rng.randrange(1, 30), rng.randrange(230, 255)])
    return s | e << 23 | man


def floats(rng, n, rows=40):
    out = {}
    for k in range(n):
        v = []
        for _ in range(rows):
            w = fp_word(rng, 5, 1, 2, 3)
            a, b, c = fp_value(rng), fp_value(rng), fp_value(rng)
            y = rng.random()
            if y < .3:
                # close in magnitude: cancellation, carries, ties
                b = (a & 0x7F800000) + (rng.randrange(-26, 27) << 23) & 0x7F800000 | fp_value(rng) & 0x807FFFFF
            if w & 127 != 0x53:
                if y < .6:
                    # an addend near the product, or near its last digits
                    e = ((a >> 23) & 255) + ((b >> 23) & 255) - 127 + rng.choice([0, 1, -1, rng.randrange(-50, 30)])
                    c = (max(0, min(254, e)) << 23) | fp_value(rng) & 0x807FFFFF
            elif w >> 25 in (0x50, 0x14) and y < .5:
                b = rng.choice([a, a ^ 1 << 31, a + 1 & 0xFFFFFFFF, a - 1 & 0xFFFFFFFF])
            elif w >> 25 == 0x60 and y < .7:
                a = a & 0x807FFFFF | rng.randrange(120, 162) << 23
            elif w >> 25 == 0x68:
                a = rng.choice([enc.value(rng), rng.getrandbits(32), rng.getrandbits(rng.randrange(1, 33)), (1 << rng.randrange(24, 33)) - 1,
                                rng.getrandbits(24) << 8 | 0x80, rng.getrandbits(25) << 7 | 0x40]) & 0xFFFFFFFF
            v.append('%d %d %d %d' % (w, a, b, c))
        out['f%d' % k] = 'F f%d %d %s' % (k, rows, ' '.join(v))
    return out


CSRALL = CSRN + [0xF14, 0x301]


def _mstatus(rng, rw=True):
    """any value that does not select the reserved previous privilege"""
    v = rng.choice([enc.value(rng), rng.getrandbits(32), rng.choice([0x8, 0x2, 0x88, 0x22, 0x100, 0x1800, 0x1888, 0x122, 0x20000, 0x800, 0xA, 0xAA])]) & ~0x1800
    return v | rng.choice([0, 0x800, 0x1800] if rw else [0, 0x1800])


def csrs(rng, n):
    out = {}
    for k in range(n):
        bits = [1, 5, 9, 3, 7, 11]
        some = lambda m: sum(1 << b for b in bits if rng.random() < m)
        ms, me, mp = _mstatus(rng), some(.5), some(.3)
        c = [enc.value(rng) for _ in range(21)]
        c[0], c[11] = [rng.choice([enc.value(rng), 0x80000100 | rng.getrandbits(2), rng.getrandbits(32)]) for _ in range(2)]
        c[3], c[4], c[7] = me, mp, ms
        c[8] = rng.choice([0, some(.5), rng.getrandbits(32)])
        c[9] = rng.choice([0, 0xFFFFFFFF, 0xB3FF, rng.getrandbits(16), rng.getrandbits(32)])
        c[15], c[16], c[17] = ms & 0x800DE133, me & 0x333, mp & 0x333
        quiet = rng.random() < .5      # few pending interrupts: exceptions and returns get through
        if quiet:
            c[3], c[16] = rng.choice([(0, 0), (me & 0x80, 0)])
        T = rng.randint(15, 60)
        cyc = []
        pe, px = rng.choice([(.3, .3), (.6, .5), (.1, .2)])
        for t in range(T):
            x, idx, cmd, re, we, data = 0, 0, 0, 0, 0, 0
            if rng.random() < px:
                x, idx, cmd = 1, rng.choice(CSRALL), rng.randint(1, 3)
                if rng.random() < .5:
                    idx = rng.choice([0x300, 0x100, 0x304, 0x104, 0x344, 0x144, 0x302, 0x303])
                re, we = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0)] if cmd == 1 else [(1, 1), (1, 1), (1, 0)])
                data = enc.value(rng)
                if idx == 0x300:
                    data = _mstatus(rng, cmd == 1)
                elif idx in (0x304, 0x104, 0x344, 0x144, 0x303) and rng.random() < .7:
                    data = some(.15 if quiet and idx in (0x304, 0x104) else .4)
            ev = 0
            if rng.random() < pe:
                ev = rng.choice([1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 10, 3, 4])
            elif rng.random() < .3:
                ev = 1
            line = lambda: (1, rng.getrandbits(1)) if rng.random() < (.05 if quiet else .2) else (0, rng.getrandbits(1))
            cyc.append('%d %d %d %d %d %d %d %d %d %d %d %d %d' % (
                (x, idx, cmd, re, we, data, ev, _pc(rng), enc.value(rng)) + line() + line()))
        out['c%d' % k] = 'C c%d %d %s %d %s' % (k, rng.choice([0, 1, 3, 3]), ' '.join(map(str, c)), T, ' '.join(cyc))
    return out


def dcache(rng, n):
    """Loads, stores, probes and walks on a few lines that share cache sets, over fabrics of every speed."""
    out = {}
    for k in range(n):
        sets = rng.sample([5, 6, 21, 200], rng.choice([1, 1, 2, 3]))
        ntag = rng.choice([2, 4, 5, 6, 8, 12])
        tags = rng.sample(range(1, 60), ntag)
        lines = [(t << 14) | (s << 6) for s in sets for t in tags]
        words = [ln | o for ln in lines for o in rng.sample([0, 4, 28, 60], rng.choice([1, 1, 2]))]
        words = words[:30]
        pages = [w >> 12 for w in words]

        def pte():
            x = rng.random()
            low = rng.choice([0x01, 0x01, 0x0F, 0xCF, 0x4B, 0x05, 0x07, 0x00, 0x0B, rng.getrandbits(10)])
            if x < .7:
                return (rng.choice(pages) << 10) | low
            return (rng.choice([0, 1, 0x400, 0x12000, rng.getrandbits(22)]) << 10) | low
        walks = rng.random() < .4
        val = lambda: pte() if walks and rng.random() < .8 else rng.choice([rng.getrandbits(32), 0, 0xFFFFFFFF, rng.getrandbits(8)])
        init = [(w, val()) for w in words]
        mix = rng.choice([(5, 5, 0, 0, 0, 0), (8, 3, 1, 0, 0, 0), (3, 8, 1, 1, 0, 0), (2, 9, 0, 0, 0, 0)]) if not walks else \
            rng.choice([(4, 4, 1, 1, 3, 1), (2, 5, 0, 1, 5, 1), (5, 2, 1, 0, 4, 0)])
        ops = []
        hot = rng.sample(words, min(len(words), 3))
        for _ in range(rng.randint(20, 90)):
            a = rng.choice(hot) if rng.random() < .3 else rng.choice(words)
            kind = rng.choices(range(6), mix)[0]
            if kind == 0:
                ops.append((0, a | rng.choice([0, 0, 1, 2, 3]), 0, 0))
            elif kind == 1:
                strb = rng.choice([15, 15, 3, 12, 1, 2, 4, 8])
                ops.append((1, a | {3: 0, 12: 2, 2: 1, 4: 2, 8: 3}.get(strb, 0), val(), strb))
            elif kind == 2:
                ops.append((2, a, 0, 0))
            elif kind == 3:
                ops.append((rng.choice([3, 4]), a, 0, 0))
            elif kind == 4:
                b = rng.choice(words)
                va = ((a & 0xFFC) >> 2 << 22) | ((b & 0xFFC) >> 2 << 12) | rng.getrandbits(12)
                ops.append((rng.choice([5, 6]), va, (rng.getrandbits(10) << 22) | (a >> 12), 0))
            else:
                ops.append((rng.choice([7, 8]), 0, 0, 0))
        ops.append((9, 0, 0, 0))
        ops += [(0, w, 0, 0) for w in words] + [(9, 0, 0, 0)]
        # other lines, one after another, until nothing of the run is left in the cache
        ops += [o for t in range(6) for s in sets for o in ((0, ((100 + t) << 14) | (s << 6), 0, 0), (9, 0, 0, 0))]
        knobs = [rng.choice(x) for x in ((30, 60, 95), (0, 3, 15, 60), (0, 5, 40, 150), (20, 60, 100), (10, 50, 100), (0, 4, 30))]
        out['d%d' % k] = 'D d%d %d %d %s %d %s %s' % (
            k, rng.getrandbits(32), len(init), ' '.join('%d %d' % x for x in init), len(ops),
            ' '.join('%d %d %d %d' % x for x in ops), ' '.join(map(str, knobs)))
    return out


def lsu(rng, n):
    """Memory operations on a few words, through aliased, faulting and device pages, with every timing."""
    out = {}
    for k in range(n):
        offs = rng.sample([0, 4, 8, 0x40, 0x44, 0x80, 0xFFC, 0x7C0], rng.choice([1, 2, 3, 5]))
        init = [(base | o, rng.choice([rng.getrandbits(32), rng.getrandbits(8), 0xFFFFFFFF]))
                for base in (0x80010000, 0x80011000) for o in offs]
        devs = rng.random() < .45
        pages = rng.choice([[0], [0, 1], [0, 1, 2], [0, 1, 2, 5], [0, 2, 3, 5]])
        wpages = [p for p in pages if p != 5 or rng.random() < .5]
        mix = rng.choice([(2, 5, 5, 0, 0, 0, 2, 0, 0), (1, 4, 8, 0, 0, 0, 1, 0, 0), (1, 4, 3, 2, 3, 1, 2, 0, 0),
                          (1, 3, 4, 1, 1, 1, 3, .5, .5), (0, 6, 6, .3, .3, .3, 1, .2, .2), (3, 5, 4, 0, 0, 0, 5, .2, .2)])
        slow = rng.choice([3, 8, 20, 45])

        def one(wrong):
            kind = rng.choices(range(9), mix)[0]
            kind = [0, 1, 2, 3, 4, 5 + rng.getrandbits(1), 7, 8, 9][kind]
            if wrong and kind in (8,):
                kind = 0
            f3, va, data = 2, 0, 0
            lat = lambda: rng.choice([0, 0, 1, rng.randint(0, slow)])
            if kind in (1, 2):
                f3 = rng.choice([0, 1, 2, 2, 2, 4, 5] if kind == 1 else [0, 1, 2, 2])
                dv = devs and rng.random() < .3
                page = rng.choice([4, 4, 6]) if dv else rng.choice(pages)
                if page in (3, 5) and rng.random() < .7:
                    page = 0
                off = rng.choice(offs)
                if dv:
                    off = rng.choice([0, 4, 8]) if not wrong else 12 if page == 4 else rng.choice([0x800, 0x804])
                off |= {0: rng.randint(0, 3), 1: 2 * rng.getrandbits(1)}.get(f3 % 4, 0)
                va, data = 0x40000000 | (page << 12) | off, rng.getrandbits(32)
            elif 3 <= kind <= 6:
                page = rng.choice([p for p in pages if p not in (3, 5) or rng.random() < .2] or [0])
                va, data = 0x40000000 | (page << 12) | rng.choice(offs), rng.getrandbits(32)
            return [kind, f3, va, data, lat() + 64 * lat(), 0]

        def path(length, depth):
            ops = []
            for _ in range(length):
                x = one(depth > 0)
                if x[0] == 7:
                    x[3] = 1 if depth < 2 and rng.random() < .5 else 0
                    if x[3]:
                        wrong = path(rng.randint(0, 10), depth + 1)
                        x[5] = len(wrong)
                        ops.append(x)
                        ops += wrong
                        continue
                ops.append(x)
            return ops
        ops = path(rng.randint(10, 60), 0)
        knobs = (rng.choice([1, 2, 2, 3, 5]), rng.choice([0, 1, 4, 12]), rng.choice([0, 0, 200, 700]), rng.choice([0, 0, 150, 500, 800]),
                 rng.choice([0, 100, 500]), rng.choice([0, 0, 0, 5, 40]), rng.choice([0, 100, 600]), rng.choice([0, 0, 200, 700]))
        out['u%d' % k] = 'U u%d %d %s %d %s %d %s' % (
            k, rng.getrandbits(32), ' '.join(map(str, knobs)), len(init), ' '.join('%d %d' % x for x in init), len(ops),
            ' '.join(' '.join(map(str, x)) for x in ops))
    return out


def tlb(rng, n):
    """Address spaces sharing global pages, accesses under changing contexts, cancelled walks, fenced table updates."""
    out = {}
    for k in range(n):
        ppn = iter(range(0x80100, 0x80200))
        vp1 = rng.sample([0, 1, 0x100, 0x101, 0x200, 0x3FF], rng.choice([2, 3, 4]))
        vp0 = rng.sample([0, 1, 2, 3, 0x10, 0x200, 0x3FE, 0x3FF], rng.choice([2, 4, 8]))
        kernel = set(rng.sample(vp1, rng.choice([0, 1])))
        mem = {}

        def leaf(glob, big):
            p = 1
            if rng.random() < .1:
                return rng.choice([0, 0x1E, 5, 0xDD & ~2, 1])
            p |= rng.choice([0xE, 0xE, 6, 2, 8, 0xA])
            p |= 0x10 if rng.random() < .5 else 0
            p |= 0x20 if glob and rng.random() < .6 else 0
            p |= 0x40 if rng.random() < .9 else 0
            p |= 0x80 if rng.random() < .8 else 0
            n = rng.getrandbits(22)
            if big and rng.random() < .85:
                n &= ~0x3FF
            return n << 10 | p

        slots = []

        def top(glob):
            if rng.random() < .25:
                return leaf(glob, True)
            t = next(ppn)
            for z in vp0:
                a = (t << 12) + 4 * z
                mem[a] = leaf(glob, False)
                slots.append((a, glob, False))
            return t << 10 | rng.choice([1, 1, 1, 0x41, 0xC1])

        shared = {x: top(True) for x in kernel}
        roots = [next(ppn) for _ in range(rng.choice([1, 2, 3]))]
        for rt in roots:
            for x in vp1:
                a = (rt << 12) + 4 * x
                mem[a] = shared[x] if x in kernel else top(False)
                if x not in kernel:
                    slots.append((a, False, True))
        asids = rng.sample(range(512), len(roots) + rng.choice([0, 1]))
        near = asids[0] ^ (1 << rng.randrange(9))
        if rng.random() < .3 and near not in asids:
            asids[-1] = near
        spaces = [(asids[q], roots[q % len(roots)]) for q in range(len(asids))]
        unit = rng.choice([0, 0, 0, 1, 1, 2])

        def context():
            a, rt = rng.choice(spaces)
            satp = (a << 22) | rt | (1 << 31 if rng.random() < .93 else 0)
            ms = (rng.getrandbits(1) << 18) | (rng.getrandbits(1) << 19) | ((rng.random() < .3) << 17) | rng.choice([0, 1, 3]) << 11
            return [1, satp, rng.choice([0, 0, 1, 1, 1, 3]), ms]
        steps = [context()]
        hot = [(x << 22) | (z << 12) for x in vp1 for z in vp0]
        hot = rng.sample(hot, min(len(hot), rng.choice([2, 5, 12, 24, 32])))
        for _ in range(rng.choice([20, 60, 120])):
            r = rng.random()
            if r < .05:
                steps.append(context())
            elif r < .07:
                a, glob, big = rng.choice(slots)
                steps.append([2, a, leaf(glob, big), 0])
            else:
                ty = 0 if unit == 1 else rng.choice([1, 1, 2])
                va = rng.choice(hot) | rng.choice([0, 4, 0x800, 0xFFC, rng.getrandbits(12)])
                if rng.random() < .03:
                    va = rng.getrandbits(32)
                steps.append([0, ty, va, 0])
        o = ['U', 't%d' % k, rng.getrandbits(32), unit, rng.choice([0, 2, 6, 20]), rng.choice([1000, 700, 200]),
             rng.choice([0, 20, 120]), len(mem)]
        for a in sorted(mem):
            o += [a, mem[a]]
        o.append(len(steps))
        for s in steps:
            o += s
        out['t%d' % k] = ' '.join(map(str, o))
    return out


def icache(rng, n):
    """Fetches from frames that share sets of the cache, code rewritten behind it, lines moving between data cache and
    memory, redirects and fences at any moment."""
    out = {}
    for k in range(n):
        ppn = iter(range(0x80100, 0x80180))
        frames = rng.sample(range(0x80000, 0x80040), rng.choice([2, 3, 9, 14]))
        if rng.random() < .3:      # frames that differ in one bit
            frames += [frames[0] ^ 1 << rng.randrange(19) for _ in range(3)]
        vp1 = rng.sample([0, 1, 0x100, 0x200, 0x3FF], rng.choice([1, 2]))
        vp0 = rng.sample([0, 1, 2, 3, 0x10, 0x200, 0x3FE, 0x3FF, 5, 6, 7, 8], rng.choice([2, 4, 12]))
        mem, slots = {}, []

        def leaf():
            if rng.random() < .07:
                return rng.choice([0, 0x1E, 5, 1])
            return rng.choice(frames) << 10 | 0xC1 | rng.choice([0xE, 0xA, 8, 0xE, 6]) | (0x10 if rng.random() < .5 else 0)
        roots = [next(ppn) for _ in range(rng.choice([1, 1, 2]))]
        for rt in roots:
            for a in vp1:
                t = next(ppn)
                mem[(rt << 12) + 4 * a] = t << 10 | 1
                for z in vp0:
                    mem[(t << 12) + 4 * z] = leaf()
                    slots.append((t << 12) + 4 * z)
        lines = rng.sample(range(0, 4096, 64), rng.choice([1, 1, 2, 4]))
        spaces = list(zip(rng.sample(range(512), len(roots)), roots))
        bare = rng.random() < .35

        def context():
            a, rt = rng.choice(spaces)
            if bare:
                return [1, rt, 3, 0]
            return [1, a << 22 | rt | 1 << 31, rng.choice([0, 1, 1, 1, 3]), rng.choice([0, 1 << 18, 1 << 19])]

        def pa():
            return rng.choice(frames) << 12 | rng.choice(lines)

        def va():
            base = rng.choice(frames) << 12 if bare else rng.choice(vp1) << 22 | rng.choice(vp0) << 12
            return base | rng.choice(lines) | rng.choice([0, 0, 4, 0x20, 0x34, 0x38, 0x3C, 4 * rng.randrange(16)])
        steps, value = [], iter(range(1000 * k + 7, 10 ** 9, 3))
        for fr in frames:
            for li in lines:
                steps += [[3, fr << 12 | li | 4 * w, next(value), 0] for w in range(16) if rng.random() < .9]
                if rng.random() < .8:
                    steps.append([5, fr << 12 | li, 0, 0])
        steps += [[4, 0, 0, 0], context()]
        hot = [va() for _ in range(rng.choice([3, 12, 40]))]
        for _ in range(rng.choice([30, 80, 160])):
            q = rng.random()
            if q < .04: steps.append([6, 0, 0, 0])
            elif q < .07: steps.append([7, 0, 0, 0])
            elif q < .09: steps.append(context())
            elif q < .11: steps.append([2, rng.choice(slots), leaf(), 0])
            elif q < .19: steps += [[3, pa() | 4 * rng.randrange(16), next(value), 0] for _ in range(rng.choice([1, 1, 3]))]
            elif q < .24: steps.append([4, 0, 0, 0])
            elif q < .32: steps.append([5, pa(), 0, 0])
            elif q < .34: steps.append([8, pa(), 0, 0])
            elif q < .40:      # rewritten, fenced, fetched and leaving the data cache at once
                a = pa()
                steps += [[3, a | 4 * rng.randrange(16), next(value), 0], [4, 0, 0, 0], [0, a | 4 * rng.randrange(16) if bare else rng.choice(hot), 0, 0], [5, a, 0, 0]]
            else: steps.append([0, rng.choice(hot), 0, 0])
        o = ['U', 'i%d' % k, rng.getrandbits(32), rng.choice([0, 2, 20]), rng.choice([0, 0, 3, 20, 80]), rng.choice([0, 0, 2, 8]),
             rng.choice([1000, 700, 200]), rng.choice([0, 0, 300]), rng.choice([0, 30, 100, 400]), len(mem)]
        for a in sorted(mem):
            o += [a, mem[a]]
        o.append(len(steps))
        for x in steps:
            o += x
        out['i%d' % k] = ' '.join(map(str, o))
    return out


def bpu(rng, n):
    """Small programs of branches, calls, returns and indirect jumps fetched, retired and redirected at random."""
    COND, CALL, RET, IND, JAL = 0, 1, 2, 3, 5
    out = {}
    for k in range(n):
        base = rng.choice([0x80000000, 0x80000000, 0x80010000, 0x00010000, 0xC0000000, 0x7FFF0000])
        steady = rng.random() < .12
        flood = rng.random() < .003
        size = rng.choice([1, 2, 3, 4, 8]) if steady else rng.choice([4, 8, 16, 40, 100])
        span = rng.choice([16, 64]) if steady else rng.choice([64, 256, 1024, 16384])
        pcs = set()
        while len(pcs) < min(size, span // 2):
            a = base + 4 * rng.randrange(span)
            if rng.random() < .3 and pcs:
                a = min(rng.choice(sorted(pcs)) + rng.choice([4, 8, 12, 16, 64]), base + 4 * span - 4)
            pcs.add(a)
        pcs = sorted(pcs)
        kinds = rng.choice([[COND], [COND, COND, JAL], [COND, COND, CALL, RET, JAL, IND], [CALL, RET], [COND, CALL, RET], [IND, COND, JAL]])

        def target():
            return rng.choice(pcs) - 4 * rng.choice([0, 0, 1, 2, 3, 5]) if rng.random() < .8 else base + 4 * rng.randrange(span)
        ins = []
        for a in pcs:
            ty = rng.choice(kinds)
            mode = rng.choice([0, 1]) if steady else rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
            ts = [max(base, target()) for _ in range(3)]
            ins.append('%d %d %d %d %d %d' % (a, ty, mode, *ts))
        # the way back at the end of the region
        ins.append('%d %d 1 %d %d %d' % (base + 4 * span, JAL, base, base, base))
        cyc = 520 if flood else rng.choice([60, 150, 300]) if not steady else 900
        lat, ready = rng.choice([0, 3, 12]), rng.choice([1000, 900, 500])
        commit, event = rng.choice([950, 700, 400]), 0 if steady else rng.choice([0, 0, 10])
        out['b%d' % k] = 'P b%d %d %d %d %d %d %d %d %d %d %d %s' % (
            k, rng.getrandbits(30), steady, lat, ready, commit, event, flood, cyc, pcs[0] & ~15, len(ins), ' '.join(ins))
    return out


def drivers(rng, n):
    """command lines of the main program, with the program or checkpoint they name"""
    out = {}
    for k in range(n):
        ident = 'm%d' % k
        mode = rng.choice([0, 1, 1, 1, 2, 3])
        W = N = refend = -1
        F = I = sig = 0
        ok = 1
        small = lambda hi: rng.choice([1, 2, 3, rng.randint(1, 20), rng.randint(1, hi), rng.randint(1, hi)])
        if rng.random() < (0.75 if mode else 0.6):
            N = small(300)
        if mode == 1:
            I = rng.choice([0, small(300), small(300), small(300)])
            if rng.random() < 0.8:
                W = rng.choice([0, 1, I, max(0, I - 1), I + 1, I // 2, rng.randint(0, I), rng.randint(0, I), rng.randint(0, I)])
        elif mode == 2:
            F = 0 if rng.random() < 0.05 else small(200)
        elif rng.random() < 0.1:
            F = small(50)                                  # ignored with a warning
        if mode != 1 and rng.random() < 0.1:
            W = small(50)                                  # likewise
        ends = rng.random() < 0.3
        if mode and rng.random() < (0.9 if mode == 3 else 0.2):
            a = I - max(W, 0) if mode == 1 else F if mode == 2 else N
            refend = max(1, rng.choice([a - 1, a, a + 1, small(200)]))
        if mode == 3 and N == -1 and refend == -1:
            refend = small(300)
        if rng.random() < 0.12:
            sig = small(200)
        refa0, refwfi = rng.choice([0, 1, 7, 255, 1000]), int(rng.random() < 0.3)
        # the program
        body = []
        for _ in range(rng.randint(1, 12)):
            w = rng.random()
            if w < 0.3:
                body.append(enc.lw(rng.randint(5, 7), 8, 4 * rng.randrange(64)))
            elif w < 0.55:
                body.append(enc.sw(8, rng.randint(5, 7), 4 * rng.randrange(64)))
            elif w < 0.7:
                body.append(enc.b(rng.choice([0, 1, 4, 5]), rng.randint(5, 7), rng.randint(5, 9), 4))
            else:
                body.append(enc.addi(rng.randint(5, 7), rng.randint(5, 9), rng.randint(-9, 9)))
        need = max(W if mode == 1 else 0, 0) + (N if N > 0 else I if mode == 1 else 0)
        if N == -1 and mode in (0, 2):
            ends = True
        turns = rng.randint(1, 20) if ends else 3000
        if ends and need and rng.random() < 0.6:
            turns = max(1, need // (len(body) + 2) + rng.choice([-1, 0, 0, 1]))
        code = [enc.lui(8, 0x80010)] + enc.li(9, turns) + enc.li(10, rng.choice([0, 1, 3, 77, 254]))
        code += body + [enc.addi(9, 9, -1)]
        code.append(enc.b(1, 9, 0, -4 * (len(body) + 1)))
        code += rng.choice([[0x00100073], [0x00100073], [0x10500073]]) + [0x00000013] * 8
        # the command line
        a = []
        if mode or rng.random() < 0.5:
            a.append((rng.choice(['-m', '--mode']), ['run', 'ckpt', 'fast', 'ref'][mode]))
        if W >= 0:
            a.append((rng.choice(['-w', '--warmup']), str(W)))
        if N >= 0:
            a.append((rng.choice(['-c', '--max-commit']), str(N)))
        if F:
            a.append((rng.choice(['-f', '--fast-forward']), str(F)))
        a.append(('@',))
        wrong = rng.random()
        if wrong < 0.12:
            ok = 0
            w = rng.randrange(6)
            a = [x for x in a if x[0][0] == '@' or w != 0]
            if w == 0:
                a.append(('-m', rng.choice(['RUN', 'ckp', 'slow', '@empty'])))
            elif w == 1:
                a[-1] = ('@none',)
            elif w == 2:
                a.append(('-w', rng.choice(['-1', 'abc', '@empty', '99999999999999999999999'])))
            elif w == 3:
                a.append(('-c', rng.choice(['0', '-7', 'x1', '@empty', '99999999999999999999999'])))
            elif w == 4:
                a.append(('-f', rng.choice(['none', '@empty', '99999999999999999999999'])))
            else:
                a.append(('--nothing',))
        elif wrong < 0.14:
            ok, a = 2, [(rng.choice(['-h', '--help']),)]
        rng.shuffle(a)
        a = [y for x in a for y in x]
        lines = ['T ' + ident, 'K %d %d 3 %d 4' % (CK['magic'], CK['ver'], CK['ram'])] + ['G %d %d' % x for x in IO]
        lines += ['O %d %d %d %d %d %d %d %d %d %d' % (mode, W, N, F, ok, I, refend, refwfi, refa0, sig),
                  'A %d %s' % (len(a), ' '.join(a)), 'W %d %s' % (len(code), ' '.join(str(x & 0xFFFFFFFF) for x in code)),
                  'F %d %d %d' % (rng.getrandbits(30), 2, rng.choice([2, 6, 30])), 'E']
        out[ident] = '\n'.join(lines)
    return out
