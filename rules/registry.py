import importlib
from rules import meta

RULES = {}
META = {}
ASSUMPTIONS = [
    'rustc lowers the source to MIR faithfully; the non-test wasm code has the same MIR as the host build',
    'models of the library functions used (cw-storage-plus, cosmwasm-std, itertools, std collections and iterators, error-stack) as written in engine/models.py',
    'a failed contract call changes no state (the CosmWasm transaction rule)',
    'distinct storage namespaces and keys do not alias (namespaces: decided by X01)',
]
for _m in ('router', 'voting', 'multisig', 'prover', 'service', 'rewards', 'batching', 'cross', 'checked', 'addresses', 'determinism', 'keys'):
    try:
        m = importlib.import_module('rules.' + _m)
    except ModuleNotFoundError as e:
        if e.name != 'rules.' + _m:
            raise
        continue
    for n in dir(m):
        if len(n) == 3 and n[0].isupper() and n[1:].isdigit():
            RULES[n] = getattr(m, n)
            META[n] = meta.PROPS.get(n, {'rule': '?'})
