"""Reference semantics of APG, written from its documentation: types, layout
of packed structs, COSMOS items, message ids, values.  Shares no code with it."""
import struct
from dataclasses import dataclass
from typing import Any

from . import model as m


@dataclass
class Kind:
    kind: str  # uint int float double bool str enum seq arr choice null
    bits: int = 0
    b: Any = None
    e: Any = None
    n: int = 0
    enum: Any = None
    seq: Any = None
    elem: Any = None


def uint_bits(e):
    n = 0
    while e >> n:
        n += 1
    return max(1, n)


def int_bits(b, e):
    if b >= 0:
        return uint_bits(e)
    for k in (8, 16, 32, 64):
        if -(1 << (k - 1)) <= b and e < (1 << (k - 1)):
            return k
    raise ValueError((b, e))


def resolve(t, defs):
    if isinstance(t, m.TInt):
        return Kind("uint" if t.b >= 0 else "int", int_bits(t.b, t.e), t.b, t.e)
    if isinstance(t, m.TReal):
        if t.b >= -m.FLOAT_LIMIT and t.e <= m.FLOAT_LIMIT:
            return Kind("float", 32, t.b, t.e)
        return Kind("double", 64, t.b, t.e)
    if isinstance(t, m.TBool):
        return Kind("bool", 1)
    if isinstance(t, m.TStr):
        return Kind("str", 8 * t.n, n=t.n)
    if isinstance(t, m.TArr):
        return Kind("arr", n=t.n, elem=resolve(t.elem, defs))
    if isinstance(t, m.TRef):
        d = defs[t.name]
        if isinstance(d, m.Simple):
            return resolve(d.type, defs)
        if isinstance(d, m.Enum):
            return Kind("enum", uint_bits(len(d.items) - 1), enum=d)
        if isinstance(d, m.Seq):
            return Kind("seq", seq=d)
        return Kind("choice", seq=d)
    raise TypeError(t)


def type_refs(t):
    if isinstance(t, m.TRef):
        return [t.name]
    if isinstance(t, m.TArr):
        return type_refs(t.elem)
    return []


def direct_refs(d):
    if isinstance(d, (m.Seq, m.Choice)):
        return [n for mem in d.members for n in type_refs(mem.type)]
    if isinstance(d, m.Simple):
        return type_refs(d.type)
    return []


def is_bitfield(k):
    return k.kind in ("bool", "enum") or (k.kind == "uint" and k.bits not in (8, 16, 32, 64))


def numbered(enum):
    """[(label, number)] in the order of the numbers"""
    if all(it.pos is None for it in enum.items):
        return [(it.key, i) for i, it in enumerate(enum.items)]
    return sorted(((it.key, it.pos) for it in enum.items), key=lambda x: x[1])


# --- C layout


@dataclass
class Field:
    key: str
    name: str
    kind: Kind
    offset: int
    bits: int  # total, arrays included


def _up(x):
    return (x + 7) // 8 * 8


class Layout:
    def __init__(self, bundle):
        self.defs = bundle.defs()
        self.cache = {}

    def bits_of(self, k):
        if k.kind == "seq":
            return self.seq(k.seq)[1]
        if k.kind == "arr":
            return k.n * self.bits_of(k.elem)
        return k.bits

    def seq(self, seq):
        """([Field], total bits)"""
        if seq.name not in self.cache:
            cur = 0
            fields = []
            for mem in seq.members:
                k = resolve(mem.type, self.defs)
                if is_bitfield(k):
                    off, n = cur, k.bits
                else:
                    off, n = _up(cur), self.bits_of(k)
                cur = off + n
                fields.append(Field(mem.key, m.cname(mem.key), k, off, n))
            self.cache[seq.name] = (fields, _up(cur))
        return self.cache[seq.name]


# --- COSMOS


@dataclass
class Item:
    kw: str
    name: str
    bits: int
    type: str
    value: Any  # None, int, float, bool; total bits for arrays
    desc: str
    le: bool
    states: list
    limits: Any
    unit: str


def cosmos_items(seq, defs, outer=None):
    """outer: {key: Value or WC} given by enclosing value lists"""
    out = []
    outer = outer or {}
    for mem in seq.members:
        given = outer.get(mem.key)
        k = resolve(mem.type, defs)
        if k.kind == "seq":
            vals = {}
            for wc in (mem.wc, given):
                if isinstance(wc, m.WC):
                    for c in wc.items:
                        assert c.key not in vals, "conflicting values are not generated"
                        vals[c.key] = c.value
            out += cosmos_items(k.seq, defs, vals)
            continue
        value = given.v if isinstance(given, m.Value) else None
        base = k.elem if k.kind == "arr" else k
        typ = {"uint": "UINT", "enum": "UINT", "bool": "UINT", "int": "INT", "float": "FLOAT", "double": "FLOAT", "str": "STRING"}[base.kind]
        states = []
        if base.kind == "bool":
            states = [("False", 0), ("True", 1)]
        elif base.kind == "enum":
            states = numbered(base.enum)
        limits = None
        lim = {"float": m.FLOAT_LIMIT, "double": m.DOUBLE_LIMIT}.get(base.kind)
        if lim and (base.b > -lim or base.e < lim):
            limits = (base.b, base.b, base.e, base.e)
        c = mem.comment or m.Comment()
        if k.kind == "arr":
            kw, value = "APPEND_ARRAY_ITEM", k.n * base.bits
        elif value is not None:
            kw = "APPEND_ID_ITEM"
        else:
            kw = "APPEND_ITEM"
        out.append(Item(kw, mem.key, base.bits, typ, value, c.text, c.le, states, limits, c.unit))
    return out


# --- message ids


def defines(seq):
    """[(macro, value)] of a sequence, in order"""
    out = []
    pre = m.cname(seq.name).upper()

    def walk(wc):
        for c in wc.items:
            if isinstance(c.value, m.WC):
                if c.key == "primary":
                    out.append((pre + "_MID", mid(c.value)))
                else:
                    walk(c.value)
            else:
                out.append((pre + "_" + m.cname(c.key).upper(), c.value.v))

    for mem in seq.members:
        if mem.wc:
            walk(mem.wc)
    return out


def mid(prim):
    v = {"packet-version-number": 0, "packet-type-is-cmd": 0, "sec-hdr-flag-is-present": 0, "application-process-identifier": 0}
    for c in prim.items:
        for i in c.value.items:
            v[i.key] = int(i.value.v)
    return (
        v["packet-version-number"] * 8192
        + v["packet-type-is-cmd"] * 4096
        + v["sec-hdr-flag-is-present"] * 2048
        + v["application-process-identifier"]
    )


# --- values


def leaf_values(seq):
    """{(member, key, ...): value} given by the value lists of a sequence"""
    out = {}

    def walk(path, wc):
        for c in wc.items:
            if isinstance(c.value, m.WC):
                walk(path + (c.key,), c.value)
            else:
                out[path + (c.key,)] = c.value.v

    for mem in seq.members:
        if mem.wc:
            walk((mem.key,), mem.wc)
    return out


def pack(k, v, order):
    """bytes of a value"""
    if k.kind in ("uint", "int"):
        n = k.bits // 8
        return (v % (1 << k.bits)).to_bytes(n, "little" if order == "little-endian" else "big")
    raw = struct.pack("<f" if k.kind == "float" else "<d", v)
    return raw if order == "little-endian" else raw[::-1]


def binary_image(seq, defs, order):
    """bytes of a sequence whose members all have values for all their fields"""
    vals = leaf_values(seq)

    def walk(path, s):
        out = b""
        for mem in s.members:
            k = resolve(mem.type, defs)
            p = path + (mem.key,)
            if k.kind == "seq":
                out += walk(p, k.seq)
            else:
                out += pack(k, vals[p], order)
        return out

    return walk((), seq)


# --- sizes reported by the model


def size_bits(t, defs):
    """minimal size, arrays excluded (None)"""
    k = resolve(t, defs)
    if k.kind == "arr":
        return None
    if k.kind == "choice":
        return None
    if k.kind == "seq":
        total = 0
        for mem in k.seq.members:
            n = size_bits(mem.type, defs)
            if n is None:
                return None
            total += n
        return total
    return k.bits
