from __future__ import annotations

import enum
from types import SimpleNamespace

from . import link, logging  # noqa: F401


class Visibility(enum.Enum):
    VIS_INVALID = 0
    VIS_SECRET = 1
    VIS_PUBLIC = 2
    VIS_PRIVATE = 3


class ProtocolKind(enum.Enum):
    PROT_INVALID = 0
    REF2K = 1
    SEMI2K = 2
    ABY3 = 3
    CHEETAH = 4
    SECURENN = 5


class FieldType(enum.Enum):
    FT_INVALID = 0
    FM32 = 1
    FM64 = 2
    FM128 = 3


class DataType(enum.Enum):
    DT_INVALID = 0
    DT_I1 = 1
    DT_I8 = 2
    DT_U8 = 3
    DT_I16 = 4
    DT_U16 = 5
    DT_I32 = 6
    DT_U32 = 7
    DT_I64 = 8
    DT_U64 = 9
    DT_F16 = 10
    DT_F32 = 11
    DT_F64 = 12


NP_OF = {
    DataType.DT_I1: "bool", DataType.DT_I8: "int8", DataType.DT_U8: "uint8",
    DataType.DT_I16: "int16", DataType.DT_U16: "uint16", DataType.DT_I32: "int32",
    DataType.DT_U32: "uint32", DataType.DT_I64: "int64", DataType.DT_U64: "uint64",
    DataType.DT_F16: "float16", DataType.DT_F32: "float32", DataType.DT_F64: "float64",
}
DT_OF = {v: k for k, v in NP_OF.items()}


class SourceIRType(enum.Enum):
    XLA = 0
    STABLEHLO = 1


class Share:
    def __init__(self):
        self.meta = b""
        self.share_chunks: list[bytes] = []


class RuntimeConfig:
    def __init__(self):
        self.protocol = None
        self.field = None
        self.fxp_fraction_bits = 0
        self.enable_pphlo_profile = False
        self.enable_hal_profile = False
        self.enable_pphlo_trace = False
        self.enable_action_trace = False


class CompilationSource:
    def __init__(self, ir_type, code, input_vis):
        self.ir_type, self.ir_txt, self.input_visibility = ir_type, code, input_vis


class CompilerOptions(SimpleNamespace):
    pass


class Executable:
    def __init__(self, name="", input_names=(), output_names=(), code=b""):
        self.name = name
        self.input_names = list(input_names)
        self.output_names = list(output_names)
        self.code = code
