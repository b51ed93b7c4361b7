"""Abstract ASN.1 bundles: what a generated text means, independent of /repo."""
from dataclasses import dataclass, field
from typing import Any, List, Optional

POSIX = {
    "Int8-t": (-(2**7), 2**7 - 1),
    "Int16-t": (-(2**15), 2**15 - 1),
    "Int32-t": (-(2**31), 2**31 - 1),
    "Int64-t": (-(2**63), 2**63 - 1),
    "Uint8-t": (0, 2**8 - 1),
    "Uint16-t": (0, 2**16 - 1),
    "Uint32-t": (0, 2**32 - 1),
    "Uint64-t": (0, 2**64 - 1),
}
FLOAT_LIMIT = 3.4e38
DOUBLE_LIMIT = 1.7976931348623157e308


@dataclass
class Comment:
    text: str = ""
    unit: str = ""
    le: bool = False


@dataclass
class TInt:
    b: int
    e: int
    lit: Any = None  # (literal of b, literal of e) or None


@dataclass
class TReal:
    b: float
    e: float
    lit: Any = None


@dataclass
class TBool:
    pass


@dataclass
class TNull:
    pass


@dataclass
class TStr:
    kind: str
    n: int


@dataclass
class TRef:
    name: str


@dataclass
class TArr:
    n: int
    elem: Any


@dataclass
class Value:
    """A leaf value with its literal."""

    v: Any  # int, float or bool
    lit: str


@dataclass
class Comp:
    key: str
    value: Any  # Value or WC
    comment: Optional[Comment] = None


@dataclass
class WC:
    items: List[Comp]
    comment: Optional[Comment] = None

    def keys(self):
        return [c.key for c in self.items]


@dataclass
class Member:
    key: str
    type: Any
    comment: Optional[Comment] = None
    wc: Optional[WC] = None


@dataclass
class EnumItem:
    key: str
    pos: Optional[int] = None
    comment: Optional[Comment] = None


@dataclass
class Seq:
    name: str
    members: List[Member]
    comment: Optional[Comment] = None


@dataclass
class Choice:
    name: str
    members: List[Member]
    comment: Optional[Comment] = None


@dataclass
class Enum:
    name: str
    items: List[EnumItem]
    comment: Optional[Comment] = None


@dataclass
class Simple:
    name: str
    type: Any
    comment: Optional[Comment] = None


@dataclass
class Import:
    names: List[str]
    module: str
    comment: Optional[Comment] = None


@dataclass
class Module:
    name: str
    defs: List[Any]
    imports: List[Import] = field(default_factory=list)
    comment: Optional[Comment] = None
    comment_import: Optional[Comment] = None


@dataclass
class Bundle:
    modules: List[Module]

    def names(self):
        return [m.name for m in self.modules]

    def module(self, name):
        return next(m for m in self.modules if m.name == name)

    def defs(self):
        return {d.name: d for m in self.modules for d in m.defs}

    def seqs(self):
        return [d for m in self.modules for d in m.defs if isinstance(d, Seq)]


def cname(name):
    return name.replace("-", "_")


def lowerize(name):
    return name[:1].lower() + name[1:]
