ID = "c09-list-length-wraps"
PROPERTY = "C09"
NEEDS = "a length-prefixed list with more items than its length prefix can count"
BREAKS = "an over-long list is encoded with a wrapped length instead of being refused"
EDITS = [("zigpy/types/basic.py", """        return self._length_type(len(self)).serialize() + b"".join(""",
"""        length = len(self) & self._length_type.max_value
        return self._length_type(length).serialize() + b"".join(""")]
DEMO = """
import zigpy.types as t
cls = t.LVList[t.uint8_t, t.uint8_t]
for n in (0, 255, 256):
    try:
        r = cls([1] * n).serialize()
    except ValueError:
        assert n == 256
    else:
        assert cls.deserialize(r) == ([1] * n, b""), (n, r[:4])
"""
