import enum
import types

from . import logging  # noqa: F401


class Share:
    def __init__(self):
        self.meta = b""
        self.share_chunks = []


class Visibility(enum.Enum):
    VIS_INVALID = 0
    VIS_SECRET = 1
    VIS_PUBLIC = 2
    VIS_PRIVATE = 3


class ProtocolKind(enum.Enum):
    PROT_INVALID = 0
    REF2K = 1
    SEMI2K = 2
    ABY3 = 3
    CHEETAH = 4
    SECURENN = 5


class FieldType(enum.Enum):
    FT_INVALID = 0
    FM32 = 1
    FM64 = 2
    FM128 = 3


class DataType(enum.Enum):
    DT_INVALID = 0
    DT_I1 = 1
    DT_I8 = 2
    DT_U8 = 3
    DT_I16 = 4
    DT_U16 = 5
    DT_I32 = 6
    DT_U32 = 7
    DT_I64 = 8
    DT_U64 = 9
    DT_F16 = 10
    DT_F32 = 11
    DT_F64 = 12


class SourceIRType(enum.Enum):
    XLA = 0
    STABLEHLO = 1


class RuntimeConfig:
    pass


class CompilerOptions:
    pass


class CompilationSource:
    def __init__(self, ir_type, code, vis):
        self.ir_type, self.code, self.vis = ir_type, code, vis


class Executable:
    def __init__(self, name="", input_names=(), output_names=(), code=b""):
        self.name = name
        self.input_names = list(input_names)
        self.output_names = list(output_names)
        self.code = code


class _IChannel:
    def __init__(self):
        pass


class _Desc:
    def __init__(self):
        self.parties = []

    def add_party(self, pid, host):
        self.parties.append((pid, host))


class _Context:
    """A link: fixed peers, a name, and a counter for child links."""

    def __init__(self, desc, rank, channels, name="root"):
        self.desc, self.rank, self.channels, self.name = desc, rank, channels, name
        self.world_size = len(desc.parties)
        self._spawned = 0
        self._seq = 0

    def spawn(self):
        child = _Context(self.desc, self.rank, self.channels, f"{self.name}-{self._spawned}")
        self._spawned += 1
        return child

    def allgather(self, data: bytes):
        tag = f"{self.name}:{self._seq}:ALLGATHER"
        self._seq += 1
        out = []
        for ch in self.channels:
            if ch is not None:
                ch.SendAsync(tag, data)
        for ch in self.channels:
            out.append(data if ch is None else ch.Recv(tag))
        return out


def _create_mem(desc, rank):
    return _Context(desc, rank, None)


def _create_with_channels(desc, rank, channels):
    return _Context(desc, rank, channels)


def _create_brpc(desc, rank):
    return _Context(desc, rank, None)


link = types.SimpleNamespace(
    IChannel=_IChannel,
    Desc=_Desc,
    Context=_Context,
    create_mem=_create_mem,
    create_with_channels=_create_with_channels,
    create_brpc=_create_brpc,
)
