ID = "c12-optional-before-data"
PROPERTY = "C12"
NEEDS = "a structure whose bit field segment spans more than one byte and is followed by more fields"
BREAKS = "decoding takes the wrong number of bytes for a bit field segment longer than one byte"
EDITS = [("zigpy/types/struct.py", """                    bits, _ = t.Bits.deserialize(data[: bit_length // 8])
                    data = data[bit_length // 8 :]
""", """                    bits, _ = t.Bits.deserialize(data[: bit_length // 8])
                    data = data[max(1, len(bitfields) // 4) :]
""")]
DEMO = """
import zigpy.types as t

class S(t.Struct):
    a: t.uint4_t
    b: t.uint6_t
    c: t.uint6_t
    d: t.uint8_t

s = S(a=1, b=2, c=3, d=4)
r, rest = S.deserialize(s.serialize() + b"x")
assert r == s and rest == b"x", (r, rest)
"""
