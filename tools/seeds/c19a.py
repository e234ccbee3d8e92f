ID = "c19-last-signed-block-unchecked"
PROPERTY = "C19"
NEEDS = "a signed container whose image is not a multiple of the block size, damaged in its last, partial block"
BREAKS = "the damaged firmware image is accepted"
EDITS = [("zigpy/ota/providers.py", """        for block_num in range(num_block_hashes):
            offset""", """        for block_num in range(max(1, ota_size // block_size)):
            offset""")]
DEMO = """
import asyncio, hashlib, struct
import zigpy.ota.providers as zp
els = struct.pack("<HI", 0, 100) + bytes(range(100))
raw = struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x100, 56, 0, 0x117C, 1, 0x20, 2) + bytes(32) + struct.pack("<I", 56 + len(els)) + els
B = 64
blocks = [raw[i:i + B] for i in range(0, len(raw), B)]
off = 40 + 32 * len(blocks)
head = b"NGIS" + bytes(12) + struct.pack("<II", off, len(raw)) + bytes(8) + struct.pack("<II", B, len(blocks))
good = head + b"".join(hashlib.sha256(b).digest() for b in blocks) + raw + b"sig"
class M(zp.SignedIkeaRemoteOtaImageMetadata):
    async def _fetch(self): return DATA
async def main():
    global DATA
    DATA = good
    await M(file_version=1, file_size=len(raw), url="x").fetch()
    bad = bytearray(good)
    bad[off + len(raw) - 1] ^= 1
    DATA = bytes(bad)
    try:
        await M(file_version=1, file_size=len(raw), url="x").fetch()
    except ValueError:
        return
    raise AssertionError("damaged image accepted")
asyncio.run(main())
"""
