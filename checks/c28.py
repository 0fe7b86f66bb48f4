"""C28: shared byte, hex, number, address and hash helpers against their definitions, over exhaustive bounded inputs."""
import itertools

from checkbase import *
from explore import Check

from ethereum.utils import byte, hexadecimal as hx, numeric
from ethereum.crypto import hash as chash, blake2
from ethereum_types.bytes import Bytes, Bytes8, Bytes32, Bytes256
from ethereum_types.numeric import U8, U32, U64, U256, Uint
import importlib

Mismatch = diff.Mismatch
HEX = set("0123456789abcdefABCDEF")
WORDS = sorted({w for k in (0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 160, 255, 256) for w in ((1 << k) - 1, 1 << k, (1 << k) + 1)})
PRIMES = None


def sieve(n):
    s = bytearray([1]) * (n + 1)
    s[0:2] = b"\0\0"
    for i in range(2, int(n ** 0.5) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(s[i * i::i]))
    return s


def strip(s):
    return s[2:] if s[:2] == "0x" else s


def attempt(f, *a):
    try:
        return f(*a)
    except (ValueError, OverflowError):
        return "refused"


def expect(want, got, what):
    if type(want) is bytes and isinstance(got, (bytes, bytearray)):
        got = bytes(got)
    if want != got:
        raise Mismatch(f"{what}: model {want!r} implementation {got!r}")


class C(Check):
    pid = "C28"
    rule = ("every helper is called on every input of a bounded space (all strings up to a length over a small alphabet, all lengths around the sizes, all "
            "small integers and word boundaries, all keccak lengths, all Blake2 round counts) and compared with an independent definition; "
            "a state is a distinct (helper, result)")
    bounds = {"quick": "strings of up to 5 symbols over 7; pads 0..70 x 0..70; primes to 20000; keccak lengths 0..420; Blake2 rounds 0..24",
              "thorough": "strings of up to 6 symbols; primes to 200000; keccak lengths 0..1500; Blake2 rounds 0..150"}
    assumptions = ["strings with a sign or a doubled 0x prefix are not claimed to be refused"]

    def cases(self, tier):
        q = tier == "quick"
        for f in ("bytes", "bytes8", "bytes32", "bytes256", "hash", "uint", "u8", "u64", "u256", "prefix"):
            yield ("hex", f, -1, 5 if q else 6)
        for F in ALL:
            yield ("hex", "address", F, 4 if q else 5)
            yield ("hex", "root", F, 4)
            yield ("addr", F)
        yield ("pad",)
        for b in range(8):
            yield ("num", b, 20000 if q else 200000)
        yield ("le",)
        for d in range(1, 26 if q else 60):
            yield ("taylor", d)
        for lo in range(0, 420 if q else 1500, 20):
            yield ("keccak", lo)
        for r in range(0, 25 if q else 151):
            yield ("blake", r)
        yield ("field",)
        yield ("tool",)

    def run(self, d):
        digs, n = getattr(self, "r_" + d[0])(*d[1:])
        return Result(list({diff.digest((d[0], x)) for x in digs}), n, n)

    # ------------------------------------------------------------- hexadecimal
    def r_hex(self, fn, F, L):
        if F >= 0:
            m = importlib.import_module(f"ethereum.{NAMES[F]}.utils.hexadecimal")
        else:
            m = hx
        size = {"bytes8": 16, "bytes32": 64, "bytes256": 512, "address": 40, "hash": 64, "root": 64}.get(fn)
        bits = {"u8": 8, "u64": 64, "u256": 256}.get(fn)
        ins = ["".join(t) for k in range(L + 1) for t in itertools.product("01aFxg-", repeat=k)]
        lens = {1, 2, 3, 15, 16, 17, 18, 39, 40, 41, 42, 63, 64, 65, 66, 511, 512, 513, 514}
        for k in sorted(lens):
            for fill in ("0", "f", "A", "7"):
                for first in ("1", "0", fill, "F"):
                    s = first + fill * (k - 1)
                    ins += [s, "0x" + s, "0X" + s, s[:-1] + "g", "0x" + s[:-1] + "z", "0x" + s + "0x"]
        if bits or fn == "uint":
            for w in WORDS:
                for t in (f"{w:x}", f"{w:X}", f"000{w:x}"):
                    ins += [t, "0x" + t]
        if fn == "prefix":
            for s in ins:
                expect(s.startswith("0x"), m.has_hex_prefix(s), f"has_hex_prefix({s!r})")
                expect(strip(s), m.remove_hex_prefix(s), f"remove_hex_prefix({s!r})")
            return ins[:1], len(ins)
        f = getattr(m, "hex_to_" + fn)
        out = set()
        for s in ins:
            b = strip(s)
            ok = all(c in HEX for c in b)
            got = attempt(f, s)
            if size or fn == "bytes":
                p = b if fn in ("bytes", "hash", "root") else b.rjust(size, "0")
                good = ok and len(p) % 2 == 0 and (size is None or len(p) == size)
                want = bytes(int(p[i:i + 2], 16) for i in range(0, len(p), 2)) if good else "refused"
                if good:
                    T = {"bytes8": Bytes8, "bytes32": Bytes32, "bytes256": Bytes256, "hash": Bytes32, "root": Bytes32, "bytes": bytes,
                         "address": None}[fn]
                    if T and not isinstance(got, T):
                        raise Mismatch(f"hex_to_{fn}({s!r}) is a {type(got).__name__}")
            else:
                if ok and b:
                    v = 0
                    for c in b:
                        v = v * 16 + "0123456789abcdef".index(c.lower())
                    want = v if bits is None or v >> bits == 0 else "refused"
                    if want != "refused" and not isinstance(got, {"uint": Uint, "u8": U8, "u64": U64, "u256": U256}[fn]):
                        raise Mismatch(f"hex_to_{fn}({s!r}) is a {type(got).__name__}")
                    got = int(got) if got != "refused" else got
                elif "-" in b or "x" in b.lower():
                    continue  # signs and doubled prefixes: not claimed
                else:
                    want = "refused"
            expect(want, got, f"{NAMES[F] if F >= 0 else ''} hex_to_{fn}({s!r})")
            out.add((fn, F, want))
        return out, len(ins)

    # ------------------------------------------------------------- byte strings
    def r_pad(self):
        n, out = 0, set()
        for ln in range(0, 71):
            for pat in (bytes(ln), bytes(range(1, ln + 1)), b"\xff" * ln, b"\x00" + b"\x05" * (ln - 1) if ln else b""):
                for size in range(0, 71):
                    z = bytes(max(0, size - ln))
                    for T in (int, Uint, U256):
                        for cls in (Bytes, bytes, bytearray):
                            v = cls(pat)
                            expect(z + pat, byte.left_pad_zero_bytes(v, T(size)), f"left_pad({pat.hex()}, {size})")
                            expect(pat + z, byte.right_pad_zero_bytes(v, T(size)), f"right_pad({pat.hex()}, {size})")
                            n += 2
                    out.add((ln, size))
        return out, n

    # ------------------------------------------------------------- numbers
    def r_num(self, b, top):
        n, out = 0, set()
        s = sieve(top)
        for v in range(b, top + 1, 8):
            for T in (int, Uint):
                expect(bool(s[v]), numeric.is_prime(T(v)), f"is_prime({v})")
            if v < 6000:
                expect((v + 31) // 32 * 32, int(numeric.ceil32(Uint(v))), f"ceil32({v})")
            n += 2
        if b == 0:
            for p in [x for x in range(2, 1500) if s[x]][-60:]:
                for q in (p, p + 2, 1009):
                    expect(False, numeric.is_prime(p * q), f"is_prime({p * q})")
            for v in (-7, -2, -1):
                expect(False, numeric.is_prime(v), f"is_prime({v})")
            for w in WORDS + [(1 << 256) - 31, (1 << 256) - 33, 1 << 300]:
                for e in (-33, -32, -31, -1, 0, 1, 31, 32, 33):
                    if w + e >= 0:
                        expect((w + e + 31) // 32 * 32, int(numeric.ceil32(Uint(w + e))), f"ceil32({w + e})")
                        n += 1
            for v in list(range(-300, 301)) + WORDS + [-w for w in WORDS]:
                expect((v > 0) - (v < 0), numeric.get_sign(v), f"get_sign({v})")
                n += 1
        return {(b, v) for v in range(0, 30)}, n

    def r_le(self):
        n, out = 0, set()
        for k in range(0, 20):
            for pat in (lambda i: 0, lambda i: 255, lambda i: i + 1, lambda i: (i * 37 + 11) % 256, lambda i: 128 if i % 4 == 3 else 0):
                d = bytes(pat(i) % 256 for i in range(4 * k))
                want = tuple(sum(d[4 * j + i] << (8 * i) for i in range(4)) for j in range(k))
                got = numeric.le_bytes_to_uint32_sequence(d)
                expect(want, tuple(int(x) for x in got), f"le_bytes_to_uint32_sequence({d.hex()})")
                for seq in (got, list(got)):
                    expect(d, numeric.le_uint32_sequence_to_bytes(seq), "le_uint32_sequence_to_bytes")
                    expect(int.from_bytes(d, "little"), int(numeric.le_uint32_sequence_to_uint(seq)), "le_uint32_sequence_to_uint")
                out.add(want)
                n += 5
        return out, n

    def r_taylor(self, den):
        n, out = 0, set()
        f = numeric.taylor_exponential
        for fac in (0, 1, 2, 3, 10, 1 << 64):
            for num in range(0, 12 * den + 1):
                w = evm.fake_exp(fac, num, den)
                expect(w, int(f(Uint(fac), Uint(num), Uint(den))), f"taylor_exponential({fac}, {num}, {den})")
                out.add(w)
                n += 1
        for den2 in (3338477, 5007716):
            for k in range(0, 160):
                num = k * 131072 * den
                if num < den2 * 60:
                    w = evm.fake_exp(1, num, den2)
                    expect(w, int(f(Uint(1), Uint(num), Uint(den2))), f"taylor_exponential(1, {num}, {den2})")
                    n += 1
        return out, n

    # ------------------------------------------------------------- hashes
    def r_keccak(self, lo):
        n, out = 0, set()
        for ln in range(lo, lo + 20):
            for pat in (lambda i: 0, lambda i: 255, lambda i: i % 256, lambda i: (i * i + 3 * ln) % 251):
                d = bytes(pat(i) for i in range(ln))
                for f, bits in ((chash.keccak256, 256), (chash.keccak512, 512)):
                    w = prim.keccak_pure(d, bits)
                    for cls in (bytes, bytearray, Bytes):
                        g = f(cls(d))
                        expect(w, g, f"keccak{bits} of {ln} bytes")
                        if len(g) * 8 != bits:
                            raise Mismatch("length")
                    out.add(w)
                    n += 3
        return out, n

    def r_blake(self, r):
        n, out = 0, set()
        b = blake2.Blake2b()
        M64 = (1 << 64) - 1
        H = [[0] * 8, [M64] * 8, [i * 0x0123456789ABCDEF & M64 for i in range(1, 9)]]
        M = [[0] * 16, [M64] * 16, [(i * 0x9E3779B97F4A7C15 + 7) & M64 for i in range(16)]] + [[(1 << 63 if i == j else 0) for i in range(16)] for j in (0, 5, 15)]
        T = [(0, 0), (128, 0), (M64, M64), (3, 1)]
        for h in H:
            for m in M:
                for t in T:
                    for f in (False, True):
                        w = precomp.blake2_f(r, h, m, t, f)
                        w = w if isinstance(w, bytes) else b"".join(x.to_bytes(8, "little") for x in w)
                        raw = r.to_bytes(4, "big") + b"".join(x.to_bytes(8, "little") for x in h + m + list(t)) + bytes([f])
                        p = b.get_blake2_parameters(raw)
                        expect((r, h, m, t[0], t[1], int(f)), (int(p[0]), [int(x) for x in p[1]], [int(x) for x in p[2]], int(p[3]), int(p[4]), int(p[5])),
                               "get_blake2_parameters")
                        expect(w, b.compress(*p), f"compress rounds={r} h={h[:2]} m={m[:2]} t={t} f={f}")
                        out.add(w)
                        n += 2
        return out, n

    # ------------------------------------------------------------- addresses
    def r_addr(self, F):
        m = importlib.import_module(f"ethereum.{NAMES[F]}.utils.address")
        T = real.fork(F).types.Address
        n, out = 0, set()
        if hasattr(m, "to_address_masked"):
            f, wide = m.to_address_masked, True
        else:
            f, wide = m.to_address, False
        vals = WORDS + [(1 << 160) - 1 << k for k in (0, 1, 8, 95, 96)] + [1 << k for k in range(256)] + [((1 << 256) - 1) ^ (1 << k) for k in range(256)]
        for v in vals:
            if v >> 256:
                continue
            for ty in (Uint, U256):
                g = f(ty(v))
                expect((v & ((1 << 160) - 1)).to_bytes(20, "big"), g, f"{NAMES[F]} {f.__name__}({v:#x})")
                if not isinstance(g, T):
                    raise Mismatch("not an Address")
                n += 1
        for a in (bytes(20), b"\xff" * 20, bytes(range(20)), b"\x00" * 19 + b"\x7f", b"\x80" + bytes(19)):
            for nonce in [x for x in WORDS if x <= (1 << 64) - 1] + list(range(3, 20)) + list(range(120, 136)) + list(range(250, 262)):
                w = prim.keccak(prim.rlp([a, nonce]))[12:]
                expect(w, m.compute_contract_address(T(a), Uint(nonce)), f"{NAMES[F]} compute_contract_address({a.hex()}, {nonce})")
                out.add(w)
                n += 1
            if F >= CONSTANTINOPLE:
                for salt in (0, 1, 1 << 255, (1 << 256) - 1, 0xDEADBEEF):
                    for ln in list(range(0, 5)) + [31, 32, 33, 135, 136, 137, 272, 24576]:
                        code = bytes((i * 7 + ln) % 256 for i in range(ln))
                        s = salt.to_bytes(32, "big")
                        w = prim.keccak(b"\xff" + a + s + prim.keccak(code))[12:]
                        expect(w, m.compute_create2_contract_address(T(a), Bytes32(s), Bytes(code)), f"{NAMES[F]} create2 address")
                        out.add(w)
                        n += 1
        return out, n

    # ------------------------------------------------------------- small tools
    def r_field(self):
        from dataclasses import fields
        from ethereum.utils import has_field
        n = 0
        for F in ALL:
            fk = real.fork(F)
            classes = [fk.blocks.Header, fk.blocks.Block, fk.vm.BlockEnvironment, fk.vm.Message, fk.vm.Evm, fk.types.Account]
            names = sorted({x.name for c in classes for x in fields(c)}) + ["", "__init__", "x", "Number"]
            for c in classes:
                mine = {x.name for x in fields(c)}
                for nm in names:
                    expect(nm in mine, has_field(c, nm), f"has_field({c}, {nm!r})")
                    n += 1
            for c in (int, 5, None, "x"):
                expect(False, has_field(c, "number"), f"has_field({c!r})")
        return {"field"}, n

    def r_tool(self):
        from ethereum_spec_tools.evm_tools import utils as tu
        from ethereum_spec_tools.evm_tools.loaders import fork_loader  # noqa
        n, out = 0, set()
        for T, bits in ((Uint, None), (U64, 64), (U256, 256)):
            for w in WORDS:
                for s, v in ((hex(w), w), (str(w), w), (w, w), ("0x000" + f"{w:x}", w), (f"0x{w:X}", w)):
                    want = v if bits is None or v >> bits == 0 else "refused"
                    got = attempt(tu.parse_hex_or_int, s, T)
                    expect(want, got if got == "refused" else int(got), f"parse_hex_or_int({s!r}, {T.__name__})")
                    if want != "refused" and not isinstance(got, T):
                        raise Mismatch("type")
                    n += 1
            for s in ("", "0x", "g", "0xg", "1f", "0x1g"):
                expect("refused", attempt(tu.parse_hex_or_int, s, T), f"parse_hex_or_int({s!r})")
                n += 1
        for v in WORDS:
            expect(hex(v), tu.encode_to_hex(v), f"encode_to_hex({v})")
        for ln in range(0, 70):
            d = bytes((i * 3) % 256 for i in range(ln))
            expect("0x" + d.hex(), tu.encode_to_hex(d), "encode_to_hex")
            n += 1
        for k in list(range(1, 12)) + [1 << 255, curves.SECP.n - 1 if hasattr(curves.SECP, "n") else 5]:
            for h in (bytes(31) + b"\x01", b"\xff" * 32, prim.keccak(b"x"), bytes(range(32))):
                r, s, v = tu.secp256k1_sign(Bytes32(h), k)
                from ethereum.crypto.elliptic_curve import secp256k1_recover
                pub = secp256k1_recover(r, s, v, Bytes32(h))
                Q = curves.SECP.mul(curves.SECP.g, k)
                expect(Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big"), pub, f"sign/recover key {k}")
                out.add((int(r), int(s)))
                n += 1
        return out, n


if __name__ == "__main__":
    raise SystemExit(main(C()))
