ID = "c20-failed-index-hides-later"
PROPERTY = "C20"
NEEDS = "two providers, the first of which cannot load its index"
BREAKS = "the images of the providers after a failed one are not offered"
EDITS = [("zigpy/ota/__init__.py", """                _LOGGER.debug("Failed to load provider %s", provider, exc_info=exc)
                continue
""", """                _LOGGER.debug("Failed to load provider %s", provider, exc_info=exc)
                break
""")]
DEMO = """
#BASE
import zigpy.ota, zigpy.ota.image as zi, zigpy.ota.providers as zp
from zigpy.zcl.clusters.general import Ota
RAW = struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x100, 56, 0, 0x1234, 1, 0x20, 2) + bytes(32) + struct.pack("<I", 56 + 7) + struct.pack("<HI", 0, 1) + b"x"
class M(zp.BaseOtaImageMetadata):
    async def _fetch(self): return RAW
class P(zp.BaseOtaProvider):
    def __init__(self, url, fail):
        super().__init__(url=url)
        self.fail = fail
    async def load_index(self):
        if self.fail: raise ValueError
        return [M(file_version=0x20)]
async def main():
    app = make_app()
    dev = add_device(app, 1)
    ota = zigpy.ota.OTA({conf.CONF_OTA_ENABLED: False}, app)
    ota.register_provider(P("a", True))
    ota.register_provider(P("b", False))
    q = Ota.ServerCommandDefs.query_next_image.schema(field_control=0, manufacturer_code=0x1234, image_type=1, current_file_version=1)
    r = await ota.get_ota_images(dev, q)
    assert len(r.upgrades) == 1, r
asyncio.run(main())
"""
