ID = "c07-manufacturer-not-asked"
PROPERTY = "C07"
NEEDS = "a device whose first endpoint reports only the model and whose second endpoint reports only the manufacturer (or the second reports nothing)"
BREAKS = "once the model is known no other endpoint is asked for the manufacturer, which stays unknown"
EDITS = [("zigpy/device.py", """                if self.model is None or self.manufacturer is None:
""", """                if self.model is None:
""")]
DEMO = """
#BASE
import zigpy.device
class L:
    seen = []
    def device_initialized(self, dev): self.seen.append((dev.model, dev.manufacturer))
async def main():
    app = make_app()
    app.add_listener(L())
    dev = add_device(app, 1, eps=(1, 2), ins=(0,))
    async def on_send(p):
        async def answer():
            data = p.data.serialize()
            if p.cluster_id == 0:
                model = b"\\x05\\x00\\x00\\x42\\x01B" if p.dst_ep == 1 else b"\\x05\\x00\\x86"
                manuf = b"\\x04\\x00\\x00\\x42\\x01A" if p.dst_ep == 2 else b"\\x04\\x00\\x86"
                app.packet_received(packet(dev, b"\\x18" + data[1:2] + b"\\x01" + manuf + model, 0, p.dst_ep, p.src_ep))
        asyncio.create_task(answer())
    app.on_send = on_send
    await asyncio.wait_for(dev.initialize(), 30)
    await asyncio.sleep(0.2)
    assert L.seen and all(s == ("B", "A") for s in L.seen), L.seen
asyncio.run(main())
"""
