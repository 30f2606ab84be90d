import importlib.util, os
_s = importlib.util.spec_from_file_location("c03_contracts", os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts.py"))
_m = importlib.util.module_from_spec(_s)
import sys
sys.modules["c03_contracts"] = _m
_s.loader.exec_module(_m)
LEVEL = "proof"
TRUSTED = ["z3 (weakest-precondition obligations over bit-vectors, arrays and floating point)",
           "vc/engine_b.py: semantics of the amd64 instruction subset the runtime uses, applied to the disassembly of the assembled source/runtime/amd64_sysv.s",
           "as / objdump (the object file is disassembled, not the source text)",
           "SSE/x87 arithmetic and conversions are uninterpreted functions common to code and contract (comparisons are IEEE; x87 ordering by axioms)"]
ASSUMPTIONS = ["operand stack, program text and data regions do not overlap (stated as preconditions)",
               "shift counts < 64, divisors non-zero and INT64_MIN / -1 excluded (undefined in C)",
               "unsigned 64-bit to floating conversion by halving with round-to-odd equals correctly rounded conversion (arithmetic lemma)"]
UNITS = []
EXTRA = [_m.run_all]
