"""Tiny assembler: programs are lists of opcode names, ints (PUSH minimal) or bytes."""
from functools import lru_cache

OPS = {"STOP": 0, "ADD": 1, "MUL": 2, "SUB": 3, "DIV": 4, "SDIV": 5, "MOD": 6, "SMOD": 7, "ADDMOD": 8,
       "MULMOD": 9, "EXP": 10, "SIGNEXTEND": 11, "LT": 0x10, "GT": 0x11, "SLT": 0x12, "SGT": 0x13, "EQ": 0x14,
       "ISZERO": 0x15, "AND": 0x16, "OR": 0x17, "XOR": 0x18, "NOT": 0x19, "BYTE": 0x1A, "SHL": 0x1B, "SHR": 0x1C,
       "SAR": 0x1D, "CLZ": 0x1E, "KECCAK": 0x20, "ADDRESS": 0x30, "BALANCE": 0x31, "ORIGIN": 0x32, "CALLER": 0x33,
       "CALLVALUE": 0x34, "CALLDATALOAD": 0x35, "CALLDATASIZE": 0x36, "CALLDATACOPY": 0x37, "CODESIZE": 0x38,
       "CODECOPY": 0x39, "GASPRICE": 0x3A, "EXTCODESIZE": 0x3B, "EXTCODECOPY": 0x3C, "RETURNDATASIZE": 0x3D,
       "RETURNDATACOPY": 0x3E, "EXTCODEHASH": 0x3F, "BLOCKHASH": 0x40, "COINBASE": 0x41, "TIMESTAMP": 0x42,
       "NUMBER": 0x43, "PREVRANDAO": 0x44, "GASLIMIT": 0x45, "CHAINID": 0x46, "SELFBALANCE": 0x47, "BASEFEE": 0x48,
       "BLOBHASH": 0x49, "BLOBBASEFEE": 0x4A, "POP": 0x50, "MLOAD": 0x51, "MSTORE": 0x52, "MSTORE8": 0x53,
       "SLOAD": 0x54, "SSTORE": 0x55, "JUMP": 0x56, "JUMPI": 0x57, "PC": 0x58, "MSIZE": 0x59, "GAS": 0x5A,
       "JUMPDEST": 0x5B, "TLOAD": 0x5C, "TSTORE": 0x5D, "MCOPY": 0x5E, "PUSH0": 0x5F, "LOG0": 0xA0, "LOG1": 0xA1,
       "LOG2": 0xA2, "LOG3": 0xA3, "LOG4": 0xA4, "CREATE": 0xF0, "CALL": 0xF1, "CALLCODE": 0xF2, "RETURN": 0xF3,
       "DELEGATECALL": 0xF4, "CREATE2": 0xF5, "STATICCALL": 0xFA, "REVERT": 0xFD, "INVALID": 0xFE, "SELFDESTRUCT": 0xFF}
for _i in range(1, 33):
    OPS[f"PUSH{_i}"] = 0x5F + _i
for _i in range(1, 17):
    OPS[f"DUP{_i}"] = 0x7F + _i
    OPS[f"SWAP{_i}"] = 0x8F + _i


def push(v):
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v)
        return bytes([0x5F + len(v)]) + v
    n = max(1, (v.bit_length() + 7) // 8)
    return bytes([0x5F + n]) + v.to_bytes(n, "big")


@lru_cache(100000)
def _words(s):
    out = b""
    for w in s.split():
        if w in OPS:
            out += bytes([OPS[w]])
        elif w.startswith("0x"):
            h = w[2:]
            out += push(bytes.fromhex(h)) if len(h) % 2 == 0 else push(int(h, 16))
        else:
            out += push(int(w))
    return out


def asm(*items):
    out = b""
    for it in items:
        if isinstance(it, str):
            out += _words(it)
        elif isinstance(it, int):
            out += push(it)
        elif isinstance(it, (bytes, bytearray)):
            out += bytes(it)
        else:
            out += asm(*it)
    return out


def mstore_code(code, off=0):
    """Store bytes at memory offset off (clobbers up to a word beyond)."""
    out = b""
    for i in range(0, len(code), 32):
        w = code[i:i + 32]
        out += push(w + bytes(32 - len(w))) + push(off + i) + bytes([0x52])
    return out


def initcode(runtime):
    """Init code returning the given runtime bytes."""
    n = len(runtime)
    pre = push(n) + push(0) + push(0) + b"\x39" + push(n) + push(0) + b"\xf3"
    while True:
        o = len(pre)
        pre2 = push(n) + push(o) + push(0) + b"\x39" + push(n) + push(0) + b"\xf3"
        if len(pre2) == o:
            return pre2 + runtime
        pre = pre2
