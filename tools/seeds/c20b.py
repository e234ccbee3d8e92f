exec(open("/verif/tools/seeds/c20a.py").read().split("DEMO =")[0])
ID = "c20-collision-keeps-first"
NEEDS = "two images of the same version and specificity with different contents, one of them listed twice (by two sources)"
BREAKS = "when one of the contradicting images is listed twice the repeated one is still offered"
EDITS = [("zigpy/ota/__init__.py", """            for bucket in buckets.values():
                bad_images.extend(bucket)
""", """            for bucket in buckets.values():
                bad_images.append(bucket[0])
""")]
DEMO = """
#BASE
import zigpy.ota, zigpy.ota.image as zi, zigpy.ota.providers as zp
from zigpy.zcl.clusters.general import Ota
def raw(x): return struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x100, 56, 0, 0x1234, 1, 0x20, 2) + bytes(32) + struct.pack("<I", 56 + 7) + struct.pack("<HI", 0, 1) + x
class M(zp.BaseOtaImageMetadata):
    async def _fetch(self): return raw(b"y" if self.source == "y" else b"x")
class P(zp.BaseOtaProvider):
    def __init__(self, url, src):
        super().__init__(url=url)
        self.src = src
    async def load_index(self):
        return [M(file_version=0x20, source=self.src)]
async def main():
    app = make_app()
    dev = add_device(app, 1)
    ota = zigpy.ota.OTA({conf.CONF_OTA_ENABLED: False}, app)
    for i, s in enumerate(("x1", "x2", "y")):
        ota.register_provider(P(str(i), s))
    q = Ota.ServerCommandDefs.query_next_image.schema(field_control=0, manufacturer_code=0x1234, image_type=1, current_file_version=1)
    r = await ota.get_ota_images(dev, q)
    assert len(r.upgrades) == 0, r
asyncio.run(main())
"""
