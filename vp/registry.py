"""Which units and modules decide which property."""
from . import units_life, units_loop, units_recv, units_api, units_node, units_rust, units_walk
UNITS = {}
for m in (units_life, units_loop, units_recv, units_api, units_node, units_rust, units_walk):
    for c in vars(m).values():
        if isinstance(c, type) and issubclass(c, units_life.Unit) and c.__module__ == m.__name__ and c.name != '?': UNITS[c.name] = c

BACKEND = 'own deductive verifier over LLVM IR (vp/), z3 %s through its Python interface'
try:
    import z3
    BACKEND = BACKEND % z3.get_version_string()
except Exception: pass

TRUSTED = ['clang 18 front end (C++ to unoptimised LLVM IR, -O0 -fno-exceptions)', 'vp/ (verification-condition generator, contracts of the C++ library in vp/stdmodel.py, contracts of system calls in vp/oscontracts.py)', 'z3']
RUST = ["rustc (Rust to LLVM IR, with the optimiser of its LLVM), contracts of the Rust standard library in vp/units_rust.py"]
SCRIPT = BACKEND.replace('LLVM IR (vp/)', 'syntax trees of the script code (vp/script.py)')
PY = ['Python: its own syntax trees (the ast module), and vp/pyexec.py, which executes them on unknown values', 'contracts of ctypes, os, json, enum, dataclasses and of the C interface in vp/units_py.py']
TS = ['the TypeScript compiler (erases the types), acorn (syntax tree of the rest), vp/jsexec.py, which executes it on unknown values', 'contracts of createRequire and of the Node bridge in vp/units_ts.py']
SEQ = 'every function runs to its end without another thread changing what it reads, except through the atomics and system calls named in the contracts'
MACH = 'nothing throws: the code is read as compiled without exceptions (std::bad_alloc, wide conversion of names that cannot be converted)'
LIB = 'the C++ library does what its contracts in vp/stdmodel.py say (functions named under contracts_assumed_on_dependencies)'
OS = 'system calls do what their contracts in vp/oscontracts.py say: any result and errno they document, any content of what they fill in'
INREC = 'inotify batches are well formed: whole records, names NUL-padded inside their length, descriptors of the watched directories, a moved-to record right after its moved-from has the same kind'
FAREC = 'fanotify batches are well formed: whole records of the announced lengths; the two halves of a rename have the same kind'
WALK = 'the kind a listing tells about an entry is the kind lstat tells (no entry is replaced between the two calls)'
EQ = 'two paths are equal exactly when their texts are (std::filesystem also takes "a//b" for "a/b")'
BASE = [MACH, LIB]
CHECKS = {
    'C01': dict(units=['life', 'loop'], assumptions=BASE + [SEQ, OS]),
    'C02': dict(units=['life', 'loop'], assumptions=BASE + [SEQ, OS]),
    'C03': dict(units=['life', 'loop', 'inrecv', 'farecv'], assumptions=BASE + [SEQ, OS, INREC, FAREC]),
    'C04': dict(units=['inrecv'], assumptions=BASE + [OS, INREC, EQ]),
    'C05': dict(units=['farecv'], assumptions=BASE + [OS, FAREC, EQ]),
    'C06': dict(units=['inrecv', 'farecv'], assumptions=BASE + [OS, INREC, FAREC]),
    'C07': dict(units=['walk', 'loop', 'inrecv', 'farecv'], assumptions=BASE + [OS, INREC, FAREC, WALK]),
    'C08': dict(units=['loop', 'inrecv', 'farecv'], assumptions=BASE + [OS]),
    'C09': dict(units=['loop', 'inrecv', 'farecv'], assumptions=BASE + [OS, INREC, FAREC]),
    'C10': dict(units=['walk', 'life', 'loop', 'inrecv', 'farecv'], assumptions=BASE + [OS, INREC, FAREC]),
    'C11': dict(units=['render', 'renderwide'], assumptions=BASE + ['a name that is rendered wide can be converted to wide text']),
    'C12': dict(units=['eventval'], assumptions=BASE + [EQ]),
    'C13': dict(units=['capi'], assumptions=BASE + [SEQ]),
    'C14': dict(units=['cli'], assumptions=BASE + ['strtod gives some IEEE 754 double determined by the text (its value is not related to the digits)']),
    'C15': dict(units=['rust'], trusted=RUST, assumptions=['the C interface keeps C13', 'the caller of the stream polls it from one thread at a time']),
    'C16': dict(units=['node'], assumptions=BASE + ['the C interface keeps C13', 'Node-API functions do what their contracts in vp/units_node.py say']),
    'C17': dict(modules=['units_py'], trusted=PY, backend=SCRIPT),
    'C20': dict(modules=['units_ts'], trusted=TS, backend=SCRIPT),
}
