"""Oracle: the EVM instruction set up to Cancun, transcribed from the Ethereum execution specification
(yellow paper appendix H and the EIPs that introduced the instructions)."""
# name: (opcode, pops, pushes, fork)
# forks: 0 Frontier..Istanbul base, others by name
FORKS = ["Istanbul", "Berlin", "London", "Paris", "Shanghai", "Cancun"]
OPS = {}
def op(c, n, pops, pushes, fork="Istanbul"): OPS[n] = (c, pops, pushes, fork)
op(0x00, "STOP", 0, 0)
for i, n in enumerate("ADD MUL SUB DIV SDIV MOD SMOD".split()): op(1 + i, n, 2, 1)
op(0x08, "ADDMOD", 3, 1); op(0x09, "MULMOD", 3, 1); op(0x0A, "EXP", 2, 1); op(0x0B, "SIGNEXTEND", 2, 1)
for i, n in enumerate("LT GT SLT SGT EQ".split()): op(0x10 + i, n, 2, 1)
op(0x15, "ISZERO", 1, 1)
for i, n in enumerate("AND OR XOR".split()): op(0x16 + i, n, 2, 1)
op(0x19, "NOT", 1, 1)
for i, n in enumerate("BYTE SHL SHR SAR".split()): op(0x1A + i, n, 2, 1)
op(0x20, "SHA3", 2, 1)
op(0x30, "ADDRESS", 0, 1); op(0x31, "BALANCE", 1, 1)
for i, n in enumerate("ORIGIN CALLER CALLVALUE".split()): op(0x32 + i, n, 0, 1)
op(0x35, "CALLDATALOAD", 1, 1); op(0x36, "CALLDATASIZE", 0, 1); op(0x37, "CALLDATACOPY", 3, 0)
op(0x38, "CODESIZE", 0, 1); op(0x39, "CODECOPY", 3, 0); op(0x3A, "GASPRICE", 0, 1)
op(0x3B, "EXTCODESIZE", 1, 1); op(0x3C, "EXTCODECOPY", 4, 0); op(0x3D, "RETURNDATASIZE", 0, 1)
op(0x3E, "RETURNDATACOPY", 3, 0); op(0x3F, "EXTCODEHASH", 1, 1)
op(0x40, "BLOCKHASH", 1, 1)
for i, n in enumerate("COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE".split()): op(0x41 + i, n, 0, 1)
op(0x48, "BASEFEE", 0, 1, "London"); op(0x49, "BLOBHASH", 1, 1, "Cancun"); op(0x4A, "BLOBBASEFEE", 0, 1, "Cancun")
op(0x50, "POP", 1, 0); op(0x51, "MLOAD", 1, 1); op(0x52, "MSTORE", 2, 0); op(0x53, "MSTORE8", 2, 0)
op(0x54, "SLOAD", 1, 1); op(0x55, "SSTORE", 2, 0); op(0x56, "JUMP", 1, 0); op(0x57, "JUMPI", 2, 0)
op(0x58, "PC", 0, 1); op(0x59, "MSIZE", 0, 1); op(0x5A, "GAS", 0, 1); op(0x5B, "JUMPDEST", 0, 0)
op(0x5C, "TLOAD", 1, 1, "Cancun"); op(0x5D, "TSTORE", 2, 0, "Cancun"); op(0x5E, "MCOPY", 3, 0, "Cancun")
op(0x5F, "PUSH0", 0, 1, "Shanghai")
for i in range(1, 33): op(0x5F + i, "PUSH%d" % i, 0, 1)
for i in range(1, 17): op(0x7F + i, "DUP%d" % i, i, i + 1)
for i in range(1, 17): op(0x8F + i, "SWAP%d" % i, i + 1, i + 1)
for i in range(5): op(0xA0 + i, "LOG%d" % i, 2 + i, 0)
op(0xF0, "CREATE", 3, 1); op(0xF1, "CALL", 7, 1); op(0xF2, "CALLCODE", 7, 1); op(0xF3, "RETURN", 2, 0)
op(0xF4, "DELEGATECALL", 6, 1); op(0xF5, "CREATE2", 4, 1); op(0xFA, "STATICCALL", 6, 1)
op(0xFD, "REVERT", 2, 0); op(0xFE, "INVALID", 0, 0); op(0xFF, "SELFDESTRUCT", 1, 0)

BYCODE = {v[0]: n for n, v in OPS.items()}
# other names the same instruction goes by
ALIAS = {"KECCAK256": "SHA3", "DIFFICULTY": "PREVRANDAO", "SUICIDE": "SELFDESTRUCT", "RANDOM": "PREVRANDAO"}
def canon(n):
    n = n.upper().replace("_", "")
    return ALIAS.get(n, n)
PUSHLEN = lambda b: b - 0x5F if 0x60 <= b <= 0x7F else 0
CALLS = {"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE", "CREATE2"}
WRITES_STATIC = {"SSTORE", "TSTORE", "LOG0", "LOG1", "LOG2", "LOG3", "LOG4", "CREATE", "CREATE2", "SELFDESTRUCT"}

# constant gas part per fork (yellow paper; EIP-1884, EIP-2929, EIP-3855, EIP-1153, EIP-4844, EIP-5656, EIP-7516)
def static_gas(n, berlin):
    """constant gas charged for the instruction independent of its operands"""
    W0 = {"STOP": 0, "RETURN": 0, "REVERT": 0, "INVALID": 0}
    if n in W0: return W0[n]
    if n in ("ADD SUB NOT LT GT SLT SGT EQ ISZERO AND OR XOR BYTE SHL SHR SAR CALLDATALOAD MLOAD MSTORE MSTORE8 CALLDATACOPY CODECOPY RETURNDATACOPY MCOPY BLOBHASH").split(): return 3
    if n.startswith("PUSH"): return 2 if n == "PUSH0" else 3
    if n.startswith(("DUP", "SWAP")): return 3
    if n in "MUL DIV SDIV MOD SMOD SIGNEXTEND SELFBALANCE".split(): return 5
    if n in ("ADDMOD", "MULMOD", "JUMP"): return 8
    if n in ("JUMPI", "EXP"): return 10
    if n == "SHA3": return 30
    if n in "ADDRESS ORIGIN CALLER CALLVALUE CALLDATASIZE CODESIZE GASPRICE RETURNDATASIZE COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID BASEFEE BLOBBASEFEE POP PC MSIZE GAS".split(): return 2
    if n == "BLOCKHASH": return 20
    if n == "JUMPDEST": return 1
    if n in ("TLOAD", "TSTORE"): return 100
    if n.startswith("LOG"): return 375 * (int(n[3]) + 1)
    if n in ("CREATE", "CREATE2"): return 32000
    if n == "SELFDESTRUCT": return 5000
    acc = {"BALANCE": 700, "EXTCODESIZE": 700, "EXTCODECOPY": 700, "EXTCODEHASH": 700, "CALL": 700, "CALLCODE": 700, "DELEGATECALL": 700, "STATICCALL": 700, "SLOAD": 800}
    if n in acc: return 0 if berlin else acc[n]
    if n == "SSTORE": return 0
    raise KeyError(n)
assert len(OPS) == 149 and all(BYCODE[v[0]] == n for n, v in OPS.items())
