"""Reference EVM instruction set (written from the EVM specification, independent of /repo): stack effect, immediates,
availability, constant gas per fork, and which instructions carry a dynamic part."""
FORKS = ["FRONTIER", "HOMESTEAD", "TANGERINE", "SPURIOUS_DRAGON", "BYZANTIUM", "PETERSBURG", "ISTANBUL", "BERLIN", "LONDON", "MERGE",
         "SHANGHAI", "CANCUN", "PRAGUE", "OSAKA", "AMSTERDAM"]


def since(f):
    return FORKS.index(f)


class Op:
    def __init__(self, code, name, i, o, gas, fork="FRONTIER", dyn=None, imm=0):
        self.code, self.name, self.i, self.o, self.gas, self.fork, self.dyn, self.imm = code, name, i, o, gas, fork, dyn, imm

    def enabled(self, fork):
        return since(fork) >= since(self.fork)

    def static_gas(self, fork):
        if callable(self.gas):
            return self.gas(since(fork))
        return self.gas


T, I, B = since("TANGERINE"), since("ISTANBUL"), since("BERLIN")
OPS = {}


def _(code, name, i, o, gas, fork="FRONTIER", dyn=None, imm=0):
    OPS[code] = Op(code, name, i, o, gas, fork, dyn, imm)


_(0x00, "STOP", 0, 0, 0)
for c, n, g in ((1, "ADD", 3), (2, "MUL", 5), (3, "SUB", 3), (4, "DIV", 5), (5, "SDIV", 5), (6, "MOD", 5), (7, "SMOD", 5), (0xB, "SIGNEXTEND", 5)):
    _(c, n, 2, 1, g)
_(8, "ADDMOD", 3, 1, 8)
_(9, "MULMOD", 3, 1, 8)
_(0xA, "EXP", 2, 1, 10, dyn="base")
for c, n in ((0x10, "LT"), (0x11, "GT"), (0x12, "SLT"), (0x13, "SGT"), (0x14, "EQ"), (0x16, "AND"), (0x17, "OR"), (0x18, "XOR"), (0x1A, "BYTE")):
    _(c, n, 2, 1, 3)
_(0x15, "ISZERO", 1, 1, 3)
_(0x19, "NOT", 1, 1, 3)
for c, n in ((0x1B, "SHL"), (0x1C, "SHR"), (0x1D, "SAR")):
    _(c, n, 2, 1, 3, "PETERSBURG")
_(0x1E, "CLZ", 1, 1, 5, "OSAKA")
_(0x20, "KECCAK256", 2, 1, 30, dyn="base")
_(0x30, "ADDRESS", 0, 1, 2)
_(0x31, "BALANCE", 1, 1, lambda f: 100 if f >= B else 700 if f >= I else 400 if f >= T else 20, dyn="base")
_(0x32, "ORIGIN", 0, 1, 2)
_(0x33, "CALLER", 0, 1, 2)
_(0x34, "CALLVALUE", 0, 1, 2)
_(0x35, "CALLDATALOAD", 1, 1, 3)
_(0x36, "CALLDATASIZE", 0, 1, 2)
_(0x37, "CALLDATACOPY", 3, 0, 3, dyn="base")
_(0x38, "CODESIZE", 0, 1, 2)
_(0x39, "CODECOPY", 3, 0, 3, dyn="base")
_(0x3A, "GASPRICE", 0, 1, 2)
_(0x3B, "EXTCODESIZE", 1, 1, lambda f: 100 if f >= B else 700 if f >= T else 20, dyn="base")
_(0x3C, "EXTCODECOPY", 4, 0, lambda f: 100 if f >= B else 700 if f >= T else 20, dyn="base")
_(0x3D, "RETURNDATASIZE", 0, 1, 2, "BYZANTIUM")
_(0x3E, "RETURNDATACOPY", 3, 0, 3, "BYZANTIUM", dyn="base")
_(0x3F, "EXTCODEHASH", 1, 1, lambda f: 100 if f >= B else 700 if f >= I else 400, "PETERSBURG", dyn="base")
_(0x40, "BLOCKHASH", 1, 1, 20)
for c, n in ((0x41, "COINBASE"), (0x42, "TIMESTAMP"), (0x43, "NUMBER"), (0x44, "DIFFICULTY"), (0x45, "GASLIMIT")):
    _(c, n, 0, 1, 2)
_(0x46, "CHAINID", 0, 1, 2, "ISTANBUL")
_(0x47, "SELFBALANCE", 0, 1, 5, "ISTANBUL")
_(0x48, "BASEFEE", 0, 1, 2, "LONDON")
_(0x49, "BLOBHASH", 1, 1, 3, "CANCUN")
_(0x4A, "BLOBBASEFEE", 0, 1, 2, "CANCUN")
_(0x4B, "SLOTNUM", 0, 1, 2, "AMSTERDAM")
_(0x50, "POP", 1, 0, 2)
_(0x51, "MLOAD", 1, 1, 3, dyn="base")
_(0x52, "MSTORE", 2, 0, 3, dyn="base")
_(0x53, "MSTORE8", 2, 0, 3, dyn="base")
_(0x54, "SLOAD", 1, 1, lambda f: 100 if f >= B else 800 if f >= I else 200 if f >= T else 50, dyn="base")
_(0x55, "SSTORE", 2, 0, 0, dyn="full")
_(0x56, "JUMP", 1, 0, 8)
_(0x57, "JUMPI", 2, 0, 10)
_(0x58, "PC", 0, 1, 2)
_(0x59, "MSIZE", 0, 1, 2)
_(0x5A, "GAS", 0, 1, 2)
_(0x5B, "JUMPDEST", 0, 0, 1)
_(0x5C, "TLOAD", 1, 1, 100, "CANCUN")
_(0x5D, "TSTORE", 2, 0, 100, "CANCUN")
_(0x5E, "MCOPY", 3, 0, 3, "CANCUN", dyn="base")
_(0x5F, "PUSH0", 0, 1, 2, "SHANGHAI")
for n in range(1, 33):
    _(0x5F + n, f"PUSH{n}", 0, 1, 3, imm=n)
for n in range(1, 17):
    _(0x7F + n, f"DUP{n}", n, n + 1, 3)
    _(0x8F + n, f"SWAP{n}", n + 1, n + 1, 3)
for n in range(5):
    _(0xA0 + n, f"LOG{n}", n + 2, 0, 375, dyn="base")
_(0xE6, "DUPN", None, None, 3, "AMSTERDAM", imm=1)
_(0xE7, "SWAPN", None, None, 3, "AMSTERDAM", imm=1)
_(0xE8, "EXCHANGE", None, None, 3, "AMSTERDAM", imm=1)
_CALL = lambda f: 100 if f >= B else 700 if f >= T else 40
_(0xF0, "CREATE", 3, 1, 0, dyn="full")
_(0xF1, "CALL", 7, 1, _CALL, dyn="base")
_(0xF2, "CALLCODE", 7, 1, _CALL, dyn="base")
_(0xF3, "RETURN", 2, 0, 0)
_(0xF4, "DELEGATECALL", 6, 1, _CALL, "HOMESTEAD", dyn="base")
_(0xF5, "CREATE2", 4, 1, 0, "PETERSBURG", dyn="full")
_(0xFA, "STATICCALL", 6, 1, _CALL, "BYZANTIUM", dyn="base")
_(0xFD, "REVERT", 2, 0, 0, "BYZANTIUM")
_(0xFE, "INVALID", 0, 0, 0)
_(0xFF, "SELFDESTRUCT", 1, 0, lambda f: 5000 if f >= T else 0, dyn="base")

BY_NAME = {o.name: o for o in OPS.values()}
TERMINATING = {"STOP", "RETURN", "REVERT", "INVALID", "SELFDESTRUCT"}
SUSPENDING = {"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE", "CREATE2"}
# (offset operand, length operand or constant) of every memory range an instruction touches; operand 0 is the top of stack
MEMORY = {
    "KECCAK256": [(0, 1)], "RETURN": [(0, 1)], "REVERT": [(0, 1)], "LOG0": [(0, 1)], "LOG1": [(0, 1)], "LOG2": [(0, 1)], "LOG3": [(0, 1)],
    "LOG4": [(0, 1)], "MLOAD": [(0, "32")], "MSTORE": [(0, "32")], "MSTORE8": [(0, "1")], "CALLDATACOPY": [(0, 2)], "CODECOPY": [(0, 2)],
    "RETURNDATACOPY": [(0, 2)], "EXTCODECOPY": [(1, 3)], "MCOPY": [((0, 1), 2)], "CREATE": [(1, 2)], "CREATE2": [(1, 2)],
    "CALL": [(3, 4), (5, 6)], "CALLCODE": [(3, 4), (5, 6)], "DELEGATECALL": [(2, 3), (4, 5)], "STATICCALL": [(2, 3), (4, 5)],
}
# value-producing instructions with no effect but their result (given the operands, and nothing else)
PURE_FOLDABLE = {"ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "ADDMOD", "MULMOD", "EXP", "SIGNEXTEND", "LT", "GT", "SLT", "SGT", "EQ",
                 "ISZERO", "AND", "OR", "XOR", "NOT", "BYTE", "SHL", "SHR", "SAR", "CLZ", "PC", "CODESIZE", "MSIZE"}


def decode_single(x):
    """EIP-8024."""
    return (x + 145) % 256 if x <= 90 or x >= 128 else None


def decode_pair(x):
    if 82 <= x <= 127:
        return None
    k = x ^ 143
    q, r = divmod(k, 16)
    return (q + 1, r + 1) if q < r else (r + 1, 29 - q)
