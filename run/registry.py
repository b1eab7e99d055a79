"""property -> (check function, level)"""
import p_core, p_ports, p_ref, p_unit

MC = 'model_checking'
CHECKS = {
    'C02': (p_ref.C02, MC),
    'C09': (p_ref.C09, MC),
    'C20': (p_ref.C20, MC),
    'C06': (p_unit.C06, MC),
    'C12': (p_ports.C12, MC),
    'C13': (p_ports.C13, MC),
    'C14': (p_ports.C14, MC),
    'C15': (p_ports.C15, MC),
    'C16': (p_ports.C16, MC),
    'C17': (p_unit.C17, MC),
    'C18': (p_unit.C18, MC),
    'C19': (p_unit.C19, MC),
    'C21': (p_unit.C21, MC),
    'C22': (p_unit.C22, MC),
    'C23': (p_unit.C23, MC),
    'C24': (p_unit.C24, MC),
    'C25': (p_unit.C25, MC),
    'C27': (p_unit.C27, MC),
    'C01': (p_core.C01, MC),
    'C03': (p_core.C03, MC),
    'C04': (p_core.C04, MC),
    'C05': (p_core.C05, MC),
    'C07': (p_core.C07, MC),
    'C08': (p_core.C08, MC),
    'C10': (p_core.C10, MC),
    'C11': (p_core.C11, MC),
    'C26': (p_core.C26, MC),
    'C28': (p_core.C28, MC),
    'C29': (p_core.C29, MC),
    'C30': (p_core.C30, MC),
    'C31': (p_unit.C31, MC),
    'C32': (p_unit.C32, MC),
}

DEFAULT_TECHNIQUE = 'TLA+ specification checked with TLC; behaviours recorded from the real code are validated against it'
_CORE = 'TLA+/TLC trace validation: every retirement of the whole core on generated programs and memory timings is replayed through the instruction-set specification (RV32, CoreTrace)'
_REF = 'TLA+/TLC trace validation: every step of the reference interpreter from generated states is replayed through the instruction-set specification (RV32, RefTrace)'


def _mc(model, trace, what):
    return 'TLA+/TLC: exhaustive model checking of %s and trace validation (%s) of %s' % (model, trace, what)


_PORTS = 'its ports recorded inside the running core'
_BOTH = _PORTS + ', two-wide and four-wide'
TECHNIQUE = {
    'C01': _CORE + '; two-wide and four-wide configurations', 'C03': _CORE, 'C11': _CORE, 'C26': _CORE + ' and of the load/store unit driven directly (Lsu, LsuTrace)',
    'C29': _CORE,
    'C30': _CORE + ' including the predictor update of each retirement; fetch-target records against FtqTrace',
    'C04': _CORE + ' and of the load/store unit driven directly (Lsu, LsuTrace)',
    'C02': _REF, 'C09': _REF, 'C20': _REF,
    'C05': _mc('Lsu (LsuMC)', 'LsuTrace, CoreTrace', 'the load/store unit driven directly and the whole core'),
    'C06': _mc('the data cache (DcacheMC)', 'DcacheTrace', 'the data cache, miss registers and write-back buffer driven directly'),
    'C07': _mc('the refill of the instruction cache (IcacheMC)', 'IcacheTrace, CoreTrace', 'the instruction cache driven directly and the whole core'),
    'C08': _mc('translation buffers and walker (TlbMC)', 'TlbTrace, CoreTrace', 'the translation units driven directly and the whole core'),
    'C10': _mc('Lsu (LsuMC)', 'RefTrace, LsuTrace, CoreTrace', 'interpreter, load/store unit and whole core'),
    'C12': _mc('Rename (RenameMC)', 'RenameTrace', _BOTH), 'C13': _mc('Rob (RobMC)', 'RobTrace', _BOTH),
    'C14': _mc('Tags (TagsMC)', 'TagsTrace', _BOTH), 'C15': _mc('Issue (IssueMC)', 'IssueTrace', _BOTH),
    'C16': _mc('Ftq (FtqMC)', 'FtqTrace', _BOTH),
    'C17': _mc('the front-end queues (FrontMC)', 'FrontUnitTrace, FrontTrace', 'the queues driven directly and ' + _PORTS),
    'C18': 'TLA+/TLC trace validation: pre-decode results for generated words and blocks, and ports recorded inside the running core, are evaluated against Predecode (FrontUnitTrace, FrontTrace)',
    'C19': _mc('CsrUnit (CsrMC)', 'CsrTrace', 'the CSR unit driven directly'),
    'C21': _mc('Devices (DevMC)', 'MemTrace, CoreTrace', 'the device models driven directly and by programs'),
    'C22': 'TLA+/TLC trace validation: generated access sequences and images are replayed through MemOps (MemTrace, BootTrace)',
    'C23': 'TLA+/TLC trace validation: the lockstep checker against a scripted reference (Lockstep, LockTrace) and end to end with the interpreter (CoreTrace)',
    'C24': _mc('Exu (ExuMC)', 'ExuTrace', 'the execution units driven directly'),
    'C25': _mc('Float32 (FloatMC)', 'FloatTrace, ExuTrace, CoreTrace', 'interpreter, execution units and whole core'),
    'C27': 'TLA+/TLC trace validation: generated checkpoints, intact and damaged, are loaded by the real loader (BootTrace) and execution continued from them (CoreTrace)',
    'C28': 'TLA+/TLC trace validation: two recordings of each run, the second with poisoned memory, are compared step by step (DetTrace)',
    'C32': _mc('the run loop (DriverMC)', 'DriverTrace', 'the real main program started with generated command lines'),
    'C31': _mc('Bpu (BpuMC)', 'BpuTrace', 'the predictor driven directly, with and without second-next prediction'),
}
DEFAULT_NOTE = 'recorded behaviours of the code in /repo are checked step by step against the TLA+ specification by TLC; coverage is bounded by the generated behaviours'
NOTE = {
    i: 'the closed model is enumerated exhaustively within the bounds in DESIGN.md section 2; the implementation is bound to it by recorded behaviours, each step of which TLC checks against the specification'
    for i in ('C05', 'C06', 'C07', 'C08', 'C10', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C21', 'C24', 'C25', 'C31', 'C32')
}
NOT_APPLICABLE = {}
