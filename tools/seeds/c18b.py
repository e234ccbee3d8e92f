ID = "c18-empty-request-gets-data"
PROPERTY = "C18"
NEEDS = "a block request that allows zero bytes"
BREAKS = "the answer carries more bytes than the device allowed"
EDITS = [("zigpy/ota/manager.py", """            + min(MAXIMUM_IMAGE_BLOCK_SIZE, command.maximum_data_size)
""", """            + min(
                MAXIMUM_IMAGE_BLOCK_SIZE,
                command.maximum_data_size or MAXIMUM_IMAGE_BLOCK_SIZE,
            )
""")]
OTA = """
#BASE
import zigpy.ota, zigpy.ota.image as zi, zigpy.ota.providers as zp
DATA = bytes(range(100))
RAW = struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x100, 56, 0, 0x1234, 1, 0x20, 2) + bytes(32) + struct.pack("<I", 56 + 106) + struct.pack("<HI", 0, 100) + DATA
def setup():
    app = make_app()
    dev = add_device(app, 1, outs=(0x19,))
    img = zigpy.ota.OtaImageWithMetadata(metadata=zp.BaseOtaImageMetadata(file_version=0x20), firmware=zi.parse_ota_image(RAW)[0])
    return app, dev, img
def ask(dev, tsn, cmd, body):
    dev.application.packet_received(packet(dev, bytes([1, tsn, cmd]) + body, 0x19))
def block(dev, tsn, off, n):
    ask(dev, tsn, 3, struct.pack("<BHHIIB", 0, 0x1234, 1, 0x20, off, n))
def blocks(app):
    return [d for d in (p.data.serialize() for p in app.sent) if d[0] & 3 == 1 and d[2] == 5]
"""
DEMO = OTA + """
async def main():
    app, dev, img = setup()
    task = asyncio.create_task(dev.update_firmware(img))
    await asyncio.sleep(0.05)
    block(dev, 9, 0, 0)
    await asyncio.sleep(0.05)
    assert all(b[3] != 0 for b in blocks(app)), blocks(app)
    task.cancel()
asyncio.run(main())
"""
