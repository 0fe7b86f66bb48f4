"""C27: step traces and opcode counts report the execution of the model, and tracing changes nothing."""
import io
import itertools
import json
import os
import shutil
import tempfile

from checkbase import *
import c03
from c03 import TO

from ethereum import trace
from ethereum_spec_tools.evm_tools.t8n.evm_trace.count import CountTracer
from ethereum_spec_tools.evm_tools.t8n.evm_trace.eip3155 import Eip3155Tracer
from ethereum_spec_tools.evm_tools.t8n.evm_trace.group import GroupTracer

Mismatch = diff.Mismatch
NAME = {v: k for k, v in OPS.items()}
NAME.update({0x20: "KECCAK", 0xFF: "SELFDESTRUCT"})
U64 = 1 << 64
LOG = []  # model machines of the current case, one per accepted transaction
CREATES, CALLS = (0xF0, 0xF5), (0xF1, 0xF2, 0xF4, 0xFA)
ERR = {"gas": "OutOfGasError", "sstore sentry": "OutOfGasError", "initcode": "OutOfGasError",
       "underflow": "StackUnderflowError", "overflow": "StackOverflowError", "badop": "InvalidOpcode",
       "jump": "InvalidJumpDestError", "static": "WriteInStaticContext", "returndata": "OutOfBoundsRead"}


def need(op):
    """Operands an instruction takes from the stack."""
    if 0x80 <= op <= 0x8F:
        return op - 0x7F
    if 0x90 <= op <= 0x9F:
        return op - 0x8E
    if 0xA0 <= op <= 0xA4:
        return 2 + op - 0xA0
    for n, ops in ((1, (0x15, 0x19, 0x1E, 0x31, 0x35, 0x3B, 0x3F, 0x40, 0x49, 0x50, 0x51, 0x54, 0x56, 0x5C, 0xFF)),
                   (3, (0x08, 0x09, 0x37, 0x39, 0x3E, 0x5E, 0xF0)), (4, (0x3C, 0xF5)), (6, (0xF4, 0xFA)), (7, (0xF1, 0xF2)),
                   (2, (0x20, 0x52, 0x53, 0x55, 0x57, 0x5D, 0xF3, 0xFD))):
        if op in ops:
            return n
    return 2 if op <= 0x1D and op else 0


class TM(evm.Machine):
    """The model machine, keeping the list of steps it makes."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.lines, self.cur, self.keep, self.top = [], {}, [], None
        LOG.append(self)

    @property
    def trace(self):
        return self.on_op

    @trace.setter
    def trace(self, v):
        pass

    def refund(self, f):
        r = 0
        while f is not None:
            r += f.refund
            f = f.parent
        return r

    def line(self, f, op, name):
        d = dict(pc=f.pc, op=op, opName=name, gas=f.gas, stack=list(f.stack), mem=bytes(f.mem), ret=bytes(f.ret),
                 depth=f.depth + 1, refund={self.refund(f)}, cost=0, err=None, f=f)
        self.lines.append(d)
        return d

    def on_op(self, f, op):
        name = ("DIFFICULTY" if self.F < PARIS else "PREVRANDAO") if op == 0x44 else NAME[op]
        self.cur[id(f)] = self.line(f, op, name)
        self.cur[id(f)]["count"] = True
        self.keep.append(f)

    def charge(self, f, n):
        self.cur[id(f)]["cost"] += n
        super().charge(f, n)

    def sstore(self, f, k, v):
        try:
            super().sstore(f, k, v)
        finally:
            self.cur[id(f)]["refund"].add(self.refund(f))

    def selfdestruct(self, f, ben):
        try:
            super().selfdestruct(f, ben)
        finally:
            self.cur[id(f)]["refund"].add(self.refund(f))

    def op_call(self, f, op, pop, push):
        if self.F >= TANGERINE:
            ask = f.stack[-1] if f.stack else 0
            d = self.cur[id(f)]
            g0 = f.gas
            d["forward"] = lambda: min(ask, (g0 - d["cost"]) - (g0 - d["cost"]) // 64)
        super().op_call(f, op, pop, push)

    def call(self, f, code_addr, transfer, disable_pre=False):
        if f.parent is None:
            self.top, self.top_gas = f, f.gas
        super().call(f, code_addr, transfer, disable_pre)

    def execute(self, f, code_addr, disable_pre):
        super().execute(f, code_addr, disable_pre)
        pre = evm._PRE[self.F].get(code_addr) is not None
        if pre:
            return  # calls of precompiles leave no line
        if f.err == "halt:badop":
            d = self.line(f, f.code[f.pc], "InvalidOpcode")
            d["gas"] = self.left
            d["err"] = f.err
        elif f.err:
            self.cur[id(f)]["err"] = f.err
        elif f.code and f.pc >= len(f.code):
            self.line(f, 0, "STOP")

    def loop(self, f):
        try:
            super().loop(f)
        finally:
            self.left = f.gas  # execute() zeroes the gas of a frame that fails


evm.Machine = TM


class C(DiffCheck):
    pid = "C27"
    rule = ("every case is run on the model machine, which records its steps, and on the implementation under a group of "
            "two EIP-3155 tracers (one with all options, one with each other combination in turn) and the opcode counter; every line of "
            "every trace, the final line of every transaction and the counts are compared with the model's steps, and "
            "receipts, logs, state and gas with the untraced semantics; a state is a distinct model post-state")
    bounds = {"quick": "every opcode x operand presets; all programs of 2 pieces over 34 and of 3 over 8; call/create trees; "
                       "paths of 2..4 calls with refunds at every set of levels; failures at every gas value of small programs; multi-transaction sequences; t8n output files; 18 forks",
              "thorough": "programs of 2 over 40, of 3 over 14, of 4 over 7"}

    def cases(self, tier):
        for F in ALL:
            for b in range(16):
                yield ("ops", F, b)
            for b in range(8 if tier == "quick" else 40):
                yield ("seq", F, 8 if tier == "quick" else 40, b, tier)
            for b in range(4):
                yield ("tree", F, b)
            yield ("deep", F)
            yield ("oog", F)
            yield ("txs", F)
            yield ("create", F)
            yield ("single", F)
            yield ("t8n", F)

    # ------------------------------------------------------------- comparison
    def tracers(self, turn):
        """All options on, one other combination in turn, and the counter."""
        g = GroupTracer()
        outs = []
        for k in (7, turn % 7):
            o = io.StringIO()
            outs.append(((k & 1, k & 2, k & 4), o))
            g.add(Eip3155Tracer(trace_memory=bool(k & 1), trace_stack=bool(k & 2), trace_return_data=bool(k & 4), output_basedir=o))
        c = CountTracer()
        g.add(c)
        return g, outs, c

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def run(self, d):
        cs = self.build(d) if d[0] != "t8n" else None
        if cs is None:
            return self.run_t8n(d[1])
        digs, n, k = [], 0, 0
        for c in cs:
            g, outs, cnt = self.tracers(k)
            if d[0] == "single":
                # a lone tracer without a group, rotating through the options
                opt, o = outs[k % 2]
                one = next(t for t in g.tracers if isinstance(t, Eip3155Tracer) and t.output_basedir is o)
                g, outs, cnt = one, [(opt, o)], None
            LOG.clear()
            old = trace.set_evm_trace(g)
            try:
                if old is not trace.discard_evm_trace:
                    raise Mismatch("set_evm_trace does not return the previous tracer")
                di, s, info = diff.run_case(c)
                if d[0] == "single":  # the same transactions again, on the same tracer
                    diff.run_case(c)
            finally:
                trace.set_evm_trace(trace.discard_evm_trace)
            ms = [m for m in LOG]
            for opt, o in outs:
                self.compare(c["F"], ms, o.getvalue(), opt)
            if cnt is not None:
                self.counts(ms, cnt.results())
                if cnt.results() != {}:
                    raise Mismatch("the counter is not cleared by results()")
            digs += di
            n += s + sum(len(m.lines) for m in ms)
            k += 1
        return Result(digs, n, k)

    @staticmethod
    def counts(ms, got):
        want = {}
        for m in ms:  # the counter restarts with each transaction that executes an instruction
            mine = {}
            for l in m.lines:
                if l.get("count"):
                    mine[l["opName"]] = mine.get(l["opName"], 0) + 1
            if mine:
                want = mine
        if dict(got) != want:
            raise Mismatch(f"opcode counts: model {want} implementation {dict(got)}")

    @classmethod
    def compare(cls, F, ms, text, opt):
        got = [json.loads(x) for x in text.splitlines()]
        i = 0
        for t, m in enumerate(ms):
            if m.top is None:
                continue  # address collision: nothing ran
            for l in m.lines:
                if i >= len(got):
                    raise Mismatch(f"tx {t}: trace ends before {l['opName']} at pc {l['pc']}")
                cls.line(F, l, got[i], opt, f"tx {t} line {i} options {opt}")
                i += 1
            if i >= len(got):
                raise Mismatch(f"tx {t}: no final line")
            cls.final(F, m, got[i], f"tx {t} options {opt}")
            i += 1
        if i != len(got):
            raise Mismatch(f"{len(got) - i} trace lines too many, first {got[i]}")

    @staticmethod
    def line(F, l, g, opt, where):
        w = dict(pc=l["pc"], op=l["op"], opName=l["opName"], depth=l["depth"], memSize=len(l["mem"]))
        if opt[0] and l["mem"]:
            w["memory"] = "0x" + l["mem"].hex()
        if opt[1]:
            w["stack"] = [hex(x) for x in l["stack"]]
        if opt[2] and F >= BYZANTIUM:
            w["returnData"] = "0x" + l["ret"].hex()
        if l["gas"] < U64:
            w["gas"] = hex(l["gas"])
        g = dict(g)
        err, cost, refund = g.pop("error", None), g.pop("gasCost", None), g.pop("refund", None)
        if g != w:
            raise Mismatch(f"{where}: model {w} implementation {g}")
        # an instruction that fails may have counted its refund before it failed
        if refund not in l["refund"] and not (l["err"] and l["op"] in (0x55, 0xFF)):
            raise Mismatch(f"{where} {l['opName']}: refund model {l['refund']} implementation {refund}")
        e = l["err"]
        c = l["cost"]
        if "forward" in l and e not in ("halt:gas", "halt:underflow"):
            c += l["forward"]()
        if e is None or e == "revert":
            if cost != (hex(c) if c < U64 else None):
                raise Mismatch(f"{where} {l['opName']}: cost model {hex(c)} implementation {cost}")
        elif e == "halt:gas":
            if len(l["stack"]) < need(l["op"]):
                e = None if err == "StackUnderflowError" else e
                l = dict(l, err=None)
            elif cost is not None and int(cost, 16) <= l["gas"]:
                raise Mismatch(f"{where} {l['opName']}: out of gas but the cost {cost} is not above {l['gas']}")
        elif cost not in ("0x0", hex(c)) and c < U64 and e != "halt:returndata":
            raise Mismatch(f"{where} {l['opName']}: cost model {hex(c)} or 0 implementation {cost}")
        if l["err"] is None and e is None and err == "StackUnderflowError" and cost == "0x0":
            return  # too little gas and too few operands: either may be named
        we = None if e is None else {"Revert"} if e == "revert" else {ERR[e[5:]]}
        # when two causes meet in one instruction either may be named
        if e in ("halt:static", "halt:gas", "halt:returndata", "halt:initcode", "halt:sstore sentry", "halt:overflow"):
            we |= {"WriteInStaticContext", "OutOfGasError"} if l["op"] in (0x55, 0x5D, 0xFF, 0xF0, 0xF5, 0xF1) or 0xA0 <= l["op"] <= 0xA4 \
                else {"OutOfGasError"} if l["op"] in (0x3E,) or e == "halt:overflow" else set()
            if l["op"] == 0x3E:
                we.add("OutOfBoundsRead")
        if (err is None) != (we is None) or (we is not None and err not in we):
            raise Mismatch(f"{where} {l['opName']}: error model {e} implementation {err}")

    @staticmethod
    def final(F, m, g, where):
        f = m.top
        w = dict(output=bytes(f.out).hex(), gasUsed=hex(m.top_gas - f.gas))
        g = dict(g)
        err = g.pop("error", None)
        if f.err == "halt:deposit":  # old forks keep the code that could not be paid for as output
            g.pop("output"), w.pop("output")
        if g != w:
            raise Mismatch(f"{where} final line: model {w} implementation {g}")
        e = f.err
        if (e is None) != (err is None):
            raise Mismatch(f"{where} final line: error model {e} implementation {err}")
        if e == "revert" and err != "Revert":
            raise Mismatch(f"{where} final line: error model {e} implementation {err}")
        if e and e[5:] in ERR and m.lines:
            last = [l for l in m.lines if l["f"] is f]
            if last and err != ERR[e[5:]] and e not in ("halt:static", "halt:gas", "halt:returndata", "halt:initcode", "halt:sstore sentry", "halt:overflow"):
                raise Mismatch(f"{where} final line: error model {e} implementation {err}")

    # ------------------------------------------------------------- families
    def wrap(self, F, codes, gas=200000, kinds=("top",), sto={5: 3}):
        """One case with a transaction per program."""
        acc = {TO: (1, 3, asm(1, 2, "ADD", 7, "POP", 0x2A, 0, "MSTORE", 5, 29, "RETURN")), A(501): (0, 5, b""), COINBASE: (0, 1, b"")}
        txs, stos = [], {}
        for i, c in enumerate(codes):
            acc[A(i)] = (1, 50, c)
            stos[A(i)] = dict(sto)
            txs.append(tx(F, A(i), data=b"\x07" * 5, value=1, gas=gas, nonce=i))
            if b"\x5b" in c and (b"\x56" in c or b"\x57" in c):
                txs[-1]["gas"] = 24000  # loops
        return case(F, world(acc), txs, stos)

    def b_ops(self, F, b):
        ps = list(c03.plain(F))
        ps = ps[b::16]
        out = []
        for k in range(0, len(ps), 20):
            out.append(self.wrap(F, ps[k:k + 20]))
        if b == 0:
            # stack limits: every opcode on an empty stack and on a full one
            for k in range(0, 256, 32):
                out.append(self.wrap(F, [bytes([op]) for op in range(k, k + 32)]))
            out.append(self.wrap(F, [asm("1 " * 1024 + x) for x in ("DUP1", "ADD")], gas=60000))
        return out

    ALPHA = ["1", "0", "ADD", "POP", "7 0 MSTORE", "5 SLOAD", "9 5 SSTORE", "0 5 SSTORE", "32 0 RETURN", "STOP",
             "INVALID", "JUMPDEST", "0 JUMP", "3 32 LOG0", "GAS", "CALLA", "CALLP", "CREATEE", "DUP1", "32 0 KECCAK",
             "CALLR", "1 SELFDESTRUCT", "CALLCODEA", "DELEGA", "STATA", "32 0 REVERT", "RETURNDATASIZE", "5 5 EXP", "64 MLOAD",
             "CALLDATASIZE", "5 0 0 CALLDATACOPY", "SWAP1", "1 1 JUMPI", "PC", "MSIZE", "0 0 0 CREATE", "CALLV", "CALLBAD", "BALANCE", "PUSH3"]

    def word(self, F, w):
        t = addr_int(TO)
        sub = {"CALLA": asm(32, 64, 3, 0, 0, t, 5000, "CALL"), "CALLP": asm(32, 64, 3, 0, 0, 4, 5000, "CALL"),
               "CREATEE": asm(mstore_code(asm(1, 0, "SSTORE 1 0 RETURN")), 9, 0, 0, "CREATE"),
               "CALLR": asm(32, 0, 0, 0, 0, addr_int(A(502)), 9000, "CALL"),
               "CALLCODEA": asm(32, 64, 3, 0, 0, t, 5000, "CALLCODE"),
               "DELEGA": asm(32, 64, 3, 0, t, 5000, "DELEGATECALL") if F >= HOMESTEAD else asm(1),
               "STATA": asm(32, 64, 3, 0, t, 5000, "STATICCALL") if F >= BYZANTIUM else asm(2),
               "CALLV": asm(0, 0, 0, 0, 2, addr_int(NOBODY), 0, "CALL"),
               "CALLBAD": asm(0, 0, 0, 0, 0, addr_int(A(503)), 900, "CALL")}
        return sub.get(w) or asm(w)

    def b_seq(self, F, parts, part, tier):
        a2, a3, a4 = (34, 8, 0) if tier == "quick" else (40, 14, 7)
        ws = [self.word(F, w) for w in self.ALPHA]
        three = [ws[i] for i in (6, 3, 15, 20, 17, 10, 16, 4, 18, 21, 8, 24, 1, 25)[:a3]]
        ps = [x + y for x in ws[:a2] for y in ws[:a2]] + [x + y + z for x in three for y in three for z in three]
        four = three[:a4]
        ps += [x + y + z + w for x in four for y in four for z in four for w in four]
        ps = ps[part::parts]
        out = []
        for k in range(0, len(ps), 20):
            c = self.wrap(F, ps[k:k + 20])
            self.callees(F, c)
            out.append(c)
        return out

    def callees(self, F, c):
        c["acc"][A(502)] = (1, 0, asm(9, 0, "MSTORE 1 5 SSTORE") + (asm(32, 0, "REVERT") if F >= BYZANTIUM else b"\xfe"))
        c["acc"][A(503)] = (1, 0, b"\x0c")

    CALLEE = ["STOP", "", "32 0 RETURN", "1 5 SSTORE", "0 JUMP", "INVALID", "POP", "1 5 SSTORE 0 5 SSTORE", "1 SELFDESTRUCT",
              "33 0 REVERT", "3 0 LOG0 STOP", "GAS GAS GAS", "REC", "CRE", "PRE", "BADPRE"]

    def b_tree(self, F, part):
        """caller x callee outcome x call kind x gas x depth 3"""
        kinds = ["CALL", "CALLCODE"] + (["DELEGATECALL"] if F >= HOMESTEAD else []) + (["STATICCALL"] if F >= BYZANTIUM else [])
        out = []
        for ci, w in enumerate(self.CALLEE):
            if ci % 4 != part:
                continue
            if w == "REC":
                body = asm(32, 0, 0, 0, 0, addr_int(A(600)), 9000, "CALL 1 0 MSTORE 32 0 RETURN")
            elif w == "CRE":
                body = asm(mstore_code(asm("1 0 MSTORE 3 29 RETURN")), 8, 0, 0, "CREATE POP", mstore_code(b"\xfe\xfe"), 2, 0, 0, "CREATE")
            elif w == "PRE":
                body = asm(32, 0, 32, 0, 0, 2, 900, "CALL POP", 32, 0, 32, 0, 0, 1, 9000, "CALL")
            elif w == "BADPRE":
                body = asm(32, 0, 32, 0, 0, 2, 5, "CALL POP", 32, 0, 64, 0, 0, 3, 0, "CALL", 5, "POP")
            else:
                body = asm(w)
            callers = []
            for kind in kinds:
                for g in (0, 3, 2300, 40000, 10**7):
                    for v in ((0, 1) if kind in ("CALL", "CALLCODE") else (0,)):
                        callers.append(asm(32, 32, 4, 0) + (asm(v) if kind in ("CALL", "CALLCODE") else b"")
                                       + asm(addr_int(A(601)), g, kind, "0 MSTORE") + (asm("RETURNDATASIZE") if F >= BYZANTIUM else b"")
                                       + asm(32, 0, "RETURN"))
            c = self.wrap(F, callers, gas=150000)
            c["acc"][A(600)] = (1, 9, asm(1, 1, "SSTORE 3 0 MSTORE 32 0 RETURN"))
            c["acc"][A(601)] = (1, 9, body)
            c["acc"][A(602)] = (1, 9, asm(32, 0, 32, 0, 0, addr_int(A(601)), 30000, "CALL 0 MSTORE"))
            c["sto"][A(601)] = {5: 1}
            out.append(c)
            if F >= PRAGUE:
                d = self.wrap(F, callers[:6], gas=150000)
                d["acc"][A(600)] = (1, 9, asm(1, 1, "SSTORE"))
                d["acc"][A(604)] = (1, 9, body)
                d["acc"][A(601)] = (1, 9, evm.DELEG + A(604))
                d["acc"][A(5)] = (1, 9, evm.DELEG + (2).to_bytes(20, "big"))
                d["acc"][A(4)] = (1, 9, evm.DELEG + A(604))
                out.append(d)
        return out

    def b_deep(self, F):
        """Paths of 2..4 calls; every set of levels that clears a slot (a refund) before the call, after it, or both."""
        out = []
        for kind in ["CALL"] + (["DELEGATECALL"] if F >= HOMESTEAD else ["CALLCODE"]):
            for n in (2, 3, 4):
                for end in ("STOP", "INVALID"):
                    tops = []
                    for j, how in enumerate(itertools.product(range(4) if n < 3 else (0, 3), repeat=n)):
                        accs = {}
                        for lv in range(n):
                            here, nxt = 1000 + 8 * j + lv, 1001 + 8 * j + lv
                            code = asm(0, 5 + lv, "SSTORE") if how[lv] & 1 else b""
                            if lv < n - 1:
                                code += asm("0 " * (5 if kind in ("CALL", "CALLCODE") else 4), addr_int(A(nxt)), "GAS 9000 SWAP1 SUB", kind, "POP")
                            code += asm(0, 15 + lv, "SSTORE") if how[lv] & 2 else b""
                            code += asm(1, "POP", end if lv == n - 1 else "STOP")
                            accs[A(here)] = (1, 9, code)
                        tops.append((A(1000 + 8 * j), accs))
                    for k in range(0, len(tops), 20):
                        c = self.wrap(F, [])
                        for i, (a, accs) in enumerate(tops[k:k + 20]):
                            c["acc"].update(accs)
                            for x in accs:
                                c["sto"][x] = {y + z: 3 for y in (5, 15) for z in range(n)}
                            c["txs"].append(tx(F, a, gas=400000, nonce=i))
                        out.append(c)
        return out

    def b_oog(self, F):
        """small programs at every gas value"""
        out = []
        progs = [asm(1, 2, "ADD 0 MSTORE 5 5 EXP POP"), asm(10, 0, "KECCAK 0 0 LOG0"), asm(1, 300, "MSTORE8 PC JUMPDEST"),
                 asm(0, 0, 0, 0, 0, 4, 20, "CALL POP"), asm(5, 0, 0, "CODECOPY GAS")]
        for p in progs:
            f = self.wrap(F, [p])
            LOG.clear()
            diff.run_case(f)
            used = LOG[0].top_gas - LOG[0].top.gas
            ig = 200000 - LOG[0].top_gas
            g0 = max(0, used - 120)
            c = self.wrap(F, [p])
            base = c["txs"][0]
            gs = list(range(ig + g0, ig + used + 2))
            if F >= PRAGUE:
                gs = [g for g in gs if g >= 21000 + 50 + 200]
            c["txs"] = [dict(base, gas=g, nonce=i) for i, g in enumerate(gs)]
            out.append(c)
        return out

    def b_txs(self, F):
        """Sequences of transactions with rejected and code-free ones between."""
        acc = {A(0): (1, 50, asm(1, 5, "SSTORE 0 0 LOG0")), A(1): (1, 0, b"\xfe"), A(2): (1, 0, b""), A(3): (1, 0, asm("JUMPDEST 5 JUMP")),
               A(4): (1, 0, asm(0, 5, "SSTORE 0 0 RETURN"))}
        al = [("run", A(0), {}), ("bad", A(1), {}), ("empty", A(2), {}), ("jump", A(3), {}), ("pre", (2).to_bytes(20, "big"), {}),
              ("rej", A(0), {"nonce": 77}), ("clear", A(4), {}), ("prefail", (3).to_bytes(20, "big"), {"gas": 21250})]
        if F >= ISTANBUL:
            al.append(("preinvalid", (9).to_bytes(20, "big"), {}))
        out = []
        for x in al:
            for y in al:
                for z in al[:6]:
                    txs, n = [], 0
                    for (nm, to, kw) in (x, y, z):
                        t = tx(F, to, data=b"\x01\x02", gas=100000, nonce=n)
                        t.update(kw)
                        txs.append(t)
                        if nm != "rej":
                            n += 1
                    out.append(case(F, world(acc), txs, {A(0): {5: 9}, A(4): {5: 1}}))
        return out

    def b_create(self, F):
        """Creation transactions: init code outcome x gas, collision."""
        inits = [b"", asm("STOP"), initcode(b"\x00"), initcode(b"\xef\x00"), b"\xfe", asm("5 JUMP"), asm(1, 0, "SSTORE"),
                 asm(32, 0, "REVERT"), asm(24577, 0, "RETURN"), asm(24576, 0, "RETURN"), initcode(asm(1, 2, "ADD")),
                 asm(mstore_code(b"\xfe"), 1, 0, 0, "CREATE"), asm(mstore_code(initcode(b"\x01")), len(initcode(b"\x01")), 0, 0, "CREATE"),
                 asm(0, 0, 0, "CREATE"), asm("ADDRESS SELFDESTRUCT"), asm("1 POP")]
        out = []
        for gas in (0, 200, 40000, 6_000_000):
            txs = []
            for i, c in enumerate(inits):
                t = tx(F, b"", data=c, gas=10**6, nonce=i, value=1)
                m, _ = diff.make_tx(F, t)
                t["gas"] = max(evm.intrinsic(F, m)) + gas
                txs.append(t)
            out.append(case(F, world({}), txs))
        # collision, then an ordinary transaction
        for coll in ((1, 0, b""), (0, 0, b"\x01"), (0, 1, b"")):
            acc = {prim_create(S1, 0): coll, A(0): (1, 0, asm("1 POP"))}
            out.append(case(F, world(acc), [tx(F, b"", data=asm("1 POP")), tx(F, A(0), nonce=1)]))
        return out

    def b_single(self, F):
        return self.b_create(F)[:4] + [self.wrap(F, [asm(7, 0, "MSTORE 9 5 SSTORE", "0 5 SSTORE", 32, 0, "LOG0", 1, 1, "ADD"), b"\xfe",
                                                    asm(32, 64, 3, 0, 0, addr_int(TO), 5000, "CALL")]) for _ in range(8)]

    # ------------------------------------------------------------- through t8n
    def run_t8n(self, F):
        import c26
        c = c26.C()
        c.setup()
        digs, n, k = [], 0, 0
        acc = world({A(0): (1, 50, asm(1, 5, "SSTORE 7 0 MSTORE 32 0 RETURN")), A(1): (1, 0, b"\xfe")})
        env = c26.base_env(F)
        ts = [tx(F, A(0), nonce=0), tx(F, A(1), nonce=9), tx(F, A(1), nonce=1), tx(F, NOBODY, value=1, nonce=2)]
        for flags in range(16):
            args = ["--trace"] + (["--trace.memory"] if flags & 1 else []) + ([] if flags & 2 else ["--trace.nostack"]) \
                + (["--trace.returndata"] if flags & 4 else []) + (["--opcode.count=stdout"] if flags & 8 else [])
            d = tempfile.mkdtemp(prefix="c27_")
            try:
                for stale in ("trace-9-0xab.jsonl", "trace-0-stale.jsonl"):
                    open(d + "/" + stale, "w").write("{}\n")
                LOG.clear()
                st = evm.State(acc, {})
                o = c26.model(F, env, acc, {}, ts, 0, False)
                tm = [m for m in LOG if m.origin == S1]
                LOG.clear()
                jts = [c26.jtx(F, t, 0) for t in ts]
                got = c.t8n(c26.label(F), c26.jenv(F, env), c26.jalloc(acc, {}), jts, args=args + ["--output.basedir=" + d])
                files = sorted(os.listdir(d))
                hs = [prim.keccak(real.encode_signed(*diff.make_tx(F, t))) for t in ts]
                names = {f"trace-{i}-0x{hs[i].hex()}.jsonl": m for i, m in zip((0, 2, 3), tm)}
                have = [x for x in files if x.startswith("trace-")]
                if sorted(names) != have:
                    raise Mismatch(f"t8n trace files: model {sorted(names)} implementation {have}")
                for nm, m in names.items():
                    self.compare(F, [m], open(os.path.join(d, nm)).read(), (flags & 1, flags & 2, flags & 4))
                n += o["steps"]
                k += 1
                digs.append(diff.digest((F, flags, o["steps"])))
            finally:
                trace.set_evm_trace(trace.discard_evm_trace)
                shutil.rmtree(d, ignore_errors=True)
        return Result(digs, n, k)


def prim_create(sender, nonce):
    return prim.keccak(prim.rlp([sender, nonce]))[12:]


if __name__ == "__main__":
    raise SystemExit(main(C()))
