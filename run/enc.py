"""RV32 instruction encoders and operand pools shared by the generators."""
M32 = 0xFFFFFFFF


def s32(v):
    v &= M32
    return v - (1 << 32) if v & 0x80000000 else v


def r(op, rd, f3, rs1, rs2, f7):
    return (f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op) & M32


def i(op, rd, f3, rs1, imm):
    return ((imm & 0xFFF) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op) & M32


def s(f3, rs1, rs2, imm):
    imm &= 0xFFF
    return ((imm >> 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23) & M32


def b(f3, rs1, rs2, off):
    o = off & 0x1FFF
    return ((o >> 12) << 31 | ((o >> 5) & 63) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 |
            ((o >> 1) & 15) << 8 | ((o >> 11) & 1) << 7 | 0x63) & M32


def u(op, rd, imm20):
    return ((imm20 & 0xFFFFF) << 12 | rd << 7 | op) & M32


def j(rd, off):
    o = off & 0x1FFFFF
    return ((o >> 20) << 31 | ((o >> 1) & 0x3FF) << 21 | ((o >> 11) & 1) << 20 |
            ((o >> 12) & 0xFF) << 12 | rd << 7 | 0x6F) & M32


def lui(rd, v): return u(0x37, rd, v)
def auipc(rd, v): return u(0x17, rd, v)
def addi(rd, rs1, imm): return i(0x13, rd, 0, rs1, imm)
def jalr(rd, rs1, imm): return i(0x67, rd, 0, rs1, imm)
def lw(rd, rs1, imm): return i(3, rd, 2, rs1, imm)
def sw(rs1, rs2, imm): return s(2, rs1, rs2, imm)
def csr(f3, rd, rs1, n): return i(0x73, rd, f3, rs1, n)
def amo(f5, rd, rs1, rs2, aq=0): return r(0x2F, rd, 2, rs1, rs2, f5 << 2 | aq)


def li(rd, v):
    """two words that load any constant"""
    v &= M32
    lo = v & 0xFFF
    if lo >= 0x800:
        lo -= 0x1000
    return [lui(rd, ((v - lo) >> 12) & 0xFFFFF), addi(rd, rd, lo)]


ECALL, EBREAK, MRET, SRET, WFI = 0x73, 0x100073, 0x30200073, 0x10200073, 0x10500073
FENCE, FENCEI, SFENCE = 0x0FF0000F, 0x100F, 0x12000073
NOP = 0x13

CSRS = dict(mtvec=0x305, mepc=0x341, mcause=0x342, mie=0x304, mip=0x344, mtval=0x343,
            mscratch=0x340, mstatus=0x300, mideleg=0x303, medeleg=0x302, sepc=0x141,
            stvec=0x105, scause=0x142, sscratch=0x140, stval=0x143, sstatus=0x100,
            sie=0x104, sip=0x144, satp=0x180, mhartid=0xF14, misa=0x301)
CSR_ORDER = list(CSRS)

# (f3, f7) of register-register operations
RR = [(0, 0), (0, 32), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (5, 32), (6, 0), (7, 0),
      (1, 48), (1, 36), (1, 20), (1, 52), (1, 5), (2, 16), (2, 5), (3, 5), (4, 32), (4, 16),
      (4, 5), (4, 4), (5, 48), (5, 36), (5, 5), (6, 32), (6, 5), (6, 16), (7, 32), (7, 5), (7, 4)]
MD = [(k, 1) for k in range(8)]
AMO_OPS = [0, 1, 4, 8, 12, 16, 20, 24, 28]


def opimm(rng, rd, rs1):
    k = rng.randrange(13)
    if k < 6:
        f3 = [0, 2, 3, 4, 6, 7][k]
        return i(0x13, rd, f3, rs1, rng.choice([rng.randrange(4096), 0, 1, 0xFFF, 0x7FF, 0x800]))
    sh = rng.choice([0, 1, 31, 16, rng.randrange(32)])
    if k == 6:
        return r(0x13, rd, 1, rs1, sh, 0)
    if k == 7:
        return r(0x13, rd, 5, rs1, sh, rng.choice([0, 32]))
    if k == 8:
        return r(0x13, rd, 1, rs1, rng.choice([0, 1, 2, 4, 5]), 48)
    if k == 9:
        return r(0x13, rd, 1, rs1, sh, rng.choice([20, 36, 52]))
    if k == 10:
        return r(0x13, rd, 5, rs1, sh, rng.choice([48, 36]))
    if k == 11:
        return r(0x13, rd, 5, rs1, 24, 52)
    return r(0x13, rd, 5, rs1, 7, 20)


POOL = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF,
        0x10000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFF80,
        0xFFFF8000, 0x55555555, 0xAAAAAAAA, 0x00FF00FF, 0x01000000, 0x12345678]


def value(rng):
    k = rng.randrange(6)
    if k < 2:
        return rng.choice(POOL)
    if k == 2:
        return (1 << rng.randrange(32)) + rng.choice([-1, 0, 1]) & M32
    if k == 3:
        return rng.getrandbits(rng.randrange(1, 33))
    if k == 4:
        return (-rng.getrandbits(rng.randrange(1, 32))) & M32
    return rng.getrandbits(32)
