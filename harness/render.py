"""Schemas of behaviours (see spec/Wire.tla) as .bb text, and their leaves as paths."""
import struct as _struct

BASIC = {("uint", 8): "uint8", ("uint", 16): "uint16", ("uint", 32): "uint32", ("uint", 64): "uint64",
         ("int", 8): "int8", ("int", 16): "int16", ("int", 32): "int32", ("int", 64): "int64",
         ("bool", 8): "bool", ("float", 32): "float32", ("float", 64): "float64"}


def bits2int(b):
    v = 0
    for i, x in enumerate(b):
        v |= x << i
    return v


def bytes2int(b):
    return int.from_bytes(bytes(b), "little")


def size_text(w, style):
    """A declared size of w bits."""
    if w % 8 == 0 and style % 3 == 0:
        return "[%d]" % (w // 8)
    if w > 8 and style % 3 == 1:
        return "[%d#%d]" % (w // 8, w % 8) if w % 8 else "[%d]" % (w // 8)
    return "[#%d]" % w


def int_lit(l):
    """An integer literal of spec/Literals.tla"""
    ds = "".join("%x" % d for d in l["digits"])
    if l["caps"]:
        ds = ds.upper()
    pre = {"dec": "", "hex": "0X" if l["up"] else "0x", "oct": "0"}[l["form"]]
    return l["sign"] + pre + ds


def float_lit(l):
    t = l["sign"] + "".join(map(str, l["ip"])) + ("." if l["dot"] else "") + "".join(map(str, l["fp"]))
    if l["exp"]:
        t += ("E" if l["up"] else "e") + l["exp"][0]["sign"] + "".join(map(str, l["exp"][0]["digits"]))
    return t


def size_lit(sz):
    if not sz["by"] and not sz["bi"]:
        return ""
    return "[%s%s]" % (int_lit(sz["by"][0]) if sz["by"] else "", "#" + int_lit(sz["bi"][0]) if sz["bi"] else "")


def float_text(bits, tw):
    if tw == 32:
        v = _struct.unpack("<f", _struct.pack("<I", bits))[0]
    else:
        v = _struct.unpack("<d", _struct.pack("<Q", bits))[0]
    # exact decimal expansion: no rounding decision is left to the reader
    from decimal import Decimal
    t = format(Decimal(v), "f")
    if "." not in t:
        t += ".0"
    return t


class Names:
    """Names in the .bb file. prefix makes them unique within one package."""

    def __init__(self, prefix):
        self.p = prefix

    def struct(self, i):
        return "%sS%d" % (self.p, i)

    def enum(self, i):
        return "%sE%d" % (self.p, i)

    def member(self, i, j):
        return "%sE%dM%d" % (self.p.upper(), i, j)

    def field(self, si, fi):
        return "f%dn%d" % (si, fi) if (si + fi) % 2 else "f%d_n%d" % (si, fi)

    def const(self, si, fi):
        return "k%dn%d" % (si, fi)


class Schema:
    def __init__(self, js, prefix):
        self.js = js
        self.enums = js["enums"]
        self.structs = js["structs"]
        self.root = js["root"]
        self.n = Names(prefix)
        self.prefix = prefix
        self._inline_plan()

    # ---- which structs are declared in place, and where
    def _inline_plan(self):
        # (a definition inside a struct has no name outside its own field)
        self.inline_at = {}
        used = set()
        users = {}
        for si, s in enumerate(self.structs, 1):
            for f in s["fields"]:
                if f["k"] == "struct":
                    users[f["ref"]] = users.get(f["ref"], 0) + 1
        for si, s in enumerate(self.structs, 1):
            for fi, f in enumerate(s["fields"]):
                if f["k"] == "struct" and f["ref"] not in used:
                    used.add(f["ref"])
                    if self.structs[f["ref"] - 1]["inl"] and f["len"] == 0 and users[f["ref"]] == 1:
                        self.inline_at[(si, fi)] = f["ref"]
        self.inlined = set(self.inline_at.values())

    def enum_text(self, i):
        e = self.enums[i - 1]
        body = []
        if "defs" in e:
            for j, d in enumerate(e["defs"]):
                v = {"auto": lambda: "", "lit": lambda: " = " + int_lit(d["lit"]), "ref": lambda: " = " + self.n.member(d["e"], d["m"] - 1)}[d["d"]]()
                body.append("%s%s%s" % (self.n.member(i, j), v, "," if j % 2 == 0 else ";"))
            return "enum %s%s { %s }" % (self.n.enum(i), size_lit(e["sz"]), " ".join(body))
        for j, v in enumerate(e["vals"]):
            body.append("%s = %d%s" % (self.n.member(i, j), bits2int(v), "," if j % 2 == 0 else ";"))
        return "enum %s%s { %s }" % (self.n.enum(i), size_text(e["w"], i), " ".join(body))

    def type_text(self, f, si=None, fi=None):
        k = f["k"]
        if k == "enum":
            t = self.n.enum(f["ref"])
        elif k == "struct":
            if (si, fi) in self.inline_at:
                return self.struct_text(f["ref"])
            t = self.n.struct(f["ref"])
        elif k == "str":
            t = "string"
        elif k == "byt":
            t = "bytes"
        else:
            t = BASIC[(k, f["tw"])]
        if f["len"]:
            t += "<%s>" % (int_lit(f["ll"][0]) if f.get("ll") else f["len"])
        return t

    def field_text(self, si, fi, f):
        style = si + fi
        order = ' [order = "big"]' if f["big"] else (' [order = "little"]' if style % 7 == 3 and f["kind"] in "nc" and f["k"] != "struct" else "")
        if f["kind"] == "v":
            return "void %s;" % (size_lit(f["sz"]) if "sz" in f else size_text(f["w"], style))
        if f["kind"] == "e":
            return self.type_text(f, si, fi) + ";"
        if f["kind"] == "c":
            v = bits2int(f["cv"])
            if f["k"] == "bool":
                lit = "true" if v else "false"
            elif f["k"] == "float":
                lit = float_text(v, f["tw"])
            elif f["k"] == "int":
                if v >> (f["tw"] - 1):
                    v -= 1 << f["tw"]
                lit = str(v)
            else:
                lit = str(v) if style % 2 else hex(v)
            sz = "" if f["w"] == f["tw"] and style % 2 else size_text(f["w"], style)
            if "sz" in f:
                sz = size_lit(f["sz"])
                if f["ref2"]:
                    lit = self.n.member(f["ref2"][0], f["ref2"][1] - 1)
                elif f["lit"]:
                    lit = (float_lit if f["k"] == "float" else int_lit)(f["lit"])
            name = self.n.const(si, fi) + " " if self.has_name(si, fi) else ""
            return "%s %s%s = %s%s;" % (BASIC[(f["k"], f["tw"])], name, sz, lit, order)
        t = self.type_text(f, si, fi)
        sz = ""
        if f["k"] not in ("str", "byt", "struct"):
            total = f["w"] * max(1, f["len"])
            if not (f["w"] == f["tw"] and style % 2):
                sz = size_text(total, style)
            if "sz" in f:
                sz = size_lit(f["sz"])
        else:
            order = ""
        return "%s %s%s%s;" % (t, self.n.field(si, fi), sz, order)

    def has_name(self, si, fi):
        """is the constant field named?"""
        return (si + fi) % 3 != 0

    def constants(self, si=None):
        """(name, field, struct number, field number) of the named constants of the root, embedded ones included"""
        out = []
        si = si or self.root
        for fi, f in enumerate(self.structs[si - 1]["fields"]):
            if f["kind"] == "c" and self.has_name(si, fi):
                out.append((self.n.const(si, fi), f, si, fi))
            if f["kind"] == "e":
                out += self.constants(f["ref"])
        return out

    def is_dynamic(self, si):
        for f in self.structs[si - 1]["fields"]:
            if f["k"] in ("str", "byt"):
                return True
            if f["k"] == "struct" and self.is_dynamic(f["ref"]):
                return True
        return False

    def fixed_bits(self, si):
        n = 0
        for f in self.structs[si - 1]["fields"]:
            w = self.fixed_bits(f["ref"]) if f["k"] == "struct" else f["w"]
            n += w * max(1, f["len"])
        return n

    def struct_text(self, si):
        s = self.structs[si - 1]
        size = ""
        if not self.is_dynamic(si) and si % 2:
            size = size_text(self.fixed_bits(si), si)
        if "sz" in s:
            size = size_lit(s["sz"])
        lines = ["    " + self.field_text(si, fi, f) for fi, f in enumerate(s["fields"])]
        return "struct %s%s {\n%s\n}" % (self.n.struct(si), size, "\n".join(lines))

    def text(self):
        out = []
        for i in range(1, len(self.enums) + 1):
            out.append(self.enum_text(i))
        for si in range(1, len(self.structs) + 1):
            if si not in self.inlined:
                out.append(self.struct_text(si))
        return "\n".join(out) + "\n"

    def defs_of(self, split, f):
        """the definitions that live in file f"""
        out = [self.enum_text(i) for i, h in enumerate(split["enums"], 1) if h == f]
        out += [self.struct_text(i) for i, h in enumerate(split["structs"], 1) if h == f and i not in self.inlined]
        return "\n".join(out) + ("\n" if out else "")

    # ---- value leaves as paths: [(field name, index or None, field, owner struct)]
    def leaves(self):
        out = []

        def walk(si, path):
            for fi, f in enumerate(self.structs[si - 1]["fields"]):
                if f["kind"] in ("v", "c"):
                    continue
                if f["kind"] == "e":
                    walk(f["ref"], path)
                    continue
                name = self.n.field(si, fi)
                for ix in (range(f["len"]) if f["len"] else [None]):
                    p = path + [(name, ix, f)]
                    if f["k"] == "struct":
                        walk(f["ref"], p)
                    else:
                        out.append(p)
        walk(self.root, [])
        return out

    def root_name(self):
        return self.n.struct(self.root)

    # ---- values
    def tokens(self, vals, leaves=None):
        toks = []
        for p, v in zip(leaves or self.leaves(), vals):
            f = p[-1][2]
            if f["k"] == "str":
                toks.append("s" + bytes(v).hex())
            elif f["k"] == "byt":
                toks.append("b" + bytes(v).hex())
            else:
                toks.append("%x" % bytes2int(v))
        return toks
