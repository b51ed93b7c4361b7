"""Tokeniser and reader of COSMOS telemetry files."""
from dataclasses import dataclass, field


class BadFile(Exception):
    pass


def tokens(line):
    """words and quoted strings: [(text, quoted)]"""
    out = []
    i = 0
    n = len(line)
    while i < n:
        c = line[i]
        if c in " \t":
            i += 1
        elif c == '"':
            i += 1
            s = ""
            while True:
                if i >= n:
                    raise BadFile("unterminated string: " + line)
                if line[i] == "\\" and i + 1 < n and line[i + 1] == '"':
                    s += '"'
                    i += 2
                elif line[i] == '"':
                    i += 1
                    break
                else:
                    s += line[i]
                    i += 1
            if i < n and line[i] not in " \t":
                raise BadFile("text after string: " + line)
            out.append((s, True))
        else:
            j = i
            while j < n and line[j] not in " \t":
                j += 1
            out.append((line[i:j], False))
            i = j
    return out


@dataclass
class Item:
    kw: str
    name: str
    bits: int
    type: str
    value: str
    desc: str
    le: bool
    states: list = field(default_factory=list)
    limits: list = field(default_factory=list)
    units: list = field(default_factory=list)


@dataclass
class Packet:
    target: str
    name: str
    endian: str
    desc: str
    items: list = field(default_factory=list)
    lines: list = field(default_factory=list)


HEADER = "# This file was autogenerated from ASN.1 model."


def parse(text):
    packets = []
    for line in text.split("\n"):
        if packets and line.strip() and not line.startswith("#") and not line.startswith("TELEMETRY"):
            packets[-1].lines.append(line)
        if not line.strip() or line.lstrip().startswith("#"):
            continue
        t = tokens(line)
        kw = t[0][0]
        w = [x[0] for x in t]
        if kw == "TELEMETRY":
            if len(t) != 5 or not t[4][1]:
                raise BadFile("packet: " + line)
            packets.append(Packet(w[1], w[2], w[3], w[4]))
        elif kw in ("APPEND_ITEM", "APPEND_ID_ITEM", "APPEND_ARRAY_ITEM"):
            if not packets:
                raise BadFile("item without packet: " + line)
            le = False
            if w[-1] == "LITTLE_ENDIAN" and not t[-1][1]:
                le = True
                t, w = t[:-1], w[:-1]
            need = 5 if kw == "APPEND_ITEM" else 6
            if len(t) != need or not t[-1][1] or any(x[1] for x in t[:-1]):
                raise BadFile("item: " + line)
            packets[-1].items.append(
                Item(kw, w[1], int(w[2]), w[3], "" if kw == "APPEND_ITEM" else w[4], w[-1], le)
            )
        elif kw in ("STATE", "LIMITS", "UNITS"):
            if not packets or not packets[-1].items:
                raise BadFile("attribute without item: " + line)
            it = packets[-1].items[-1]
            if kw == "STATE":
                if len(w) != 3:
                    raise BadFile("state: " + line)
                it.states.append((w[1], int(w[2], 0)))
            elif kw == "LIMITS":
                if w[1:4] != ["DEFAULT", "5", "ENABLED"] or len(w) != 8:
                    raise BadFile("limits: " + line)
                it.limits.append(tuple(float(x) for x in w[4:]))
            else:
                it.units.append(tuple(w[1:]))
        else:
            raise BadFile("unknown line: " + line)
    return packets


def number(text):
    try:
        return int(text, 0) if not (len(text) > 1 and text[0] == "0" and text.isdigit()) else int(text)
    except ValueError:
        return float(text)


def compare_item(got, exp, texts=True):
    """differences between a parsed item and a reference item"""
    out = []

    def chk(what, g, e):
        if g != e:
            out.append("%s: %r, expected %r" % (what, g, e))

    chk("keyword", got.kw, exp.kw)
    chk("name", got.name, exp.name)
    chk("bits", got.bits, exp.bits)
    chk("type", got.type, exp.type)
    if exp.value is None:
        chk("value", got.value, "")
    else:
        try:
            g = number(got.value)
        except ValueError:
            g = got.value
        chk("value", g, int(exp.value) if isinstance(exp.value, bool) else exp.value)
    if texts:
        chk("description", got.desc, exp.desc)
        chk("little endian", got.le, exp.le)
        chk("units", got.units, [(exp.unit, exp.unit)] if exp.unit else [])
    chk("states", got.states, exp.states)
    chk("limits", got.limits, [exp.limits] if exp.limits else [])
    return out
