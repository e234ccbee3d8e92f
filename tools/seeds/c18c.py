ID = "c18-forced-update-twice"
PROPERTY = "C18"
NEEDS = "a forced update of a device that is already being updated"
BREAKS = "two updates of the device run at once and both answer its requests"
EDITS = [("zigpy/device.py", """        if self.ota_in_progress:
            self.debug("OTA already in progress")
""", """        if self.ota_in_progress and not force:
            self.debug("OTA already in progress")
""")]
OTA = """
#BASE
import zigpy.ota, zigpy.ota.image as zi, zigpy.ota.providers as zp
DATA = bytes(range(100))
RAW = struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x100, 56, 0, 0x1234, 1, 0x20, 2) + bytes(32) + struct.pack("<I", 56 + 106) + struct.pack("<HI", 0, 100) + DATA
def setup():
    app = make_app()
    dev = add_device(app, 1, outs=(0x19,))
    img = zigpy.ota.OtaImageWithMetadata(metadata=zp.BaseOtaImageMetadata(file_version=0x20), firmware=zi.parse_ota_image(RAW)[0])
    return app, dev, img
def ask(dev, tsn, cmd, body):
    dev.application.packet_received(packet(dev, bytes([1, tsn, cmd]) + body, 0x19))
def block(dev, tsn, off, n):
    ask(dev, tsn, 3, struct.pack("<BHHIIB", 0, 0x1234, 1, 0x20, off, n))
def blocks(app):
    return [d for d in (p.data.serialize() for p in app.sent) if d[0] & 3 == 1 and d[2] == 5]
"""
DEMO = OTA + """
async def main():
    app, dev, img = setup()
    task = asyncio.create_task(dev.update_firmware(img))
    await asyncio.sleep(0.05)
    before = len(app.sent)
    second = asyncio.create_task(dev.update_firmware(img, force=True))
    await asyncio.sleep(0.05)
    assert second.done() and second.result() is None, second
    assert len(app.sent) == before, app.sent[before:]
    block(dev, 9, 0, 20)
    await asyncio.sleep(0.05)
    assert len(blocks(app)) == 1, blocks(app)
    task.cancel()
asyncio.run(main())
"""
