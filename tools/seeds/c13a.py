ID = "c13-unsupported-hides-value"
PROPERTY = "C13"
NEEDS = "an attribute first marked unsupported (by a read), then reported by the device, then read from the cache"
BREAKS = "a cached value that arrived by a report is hidden by an older unsupported mark when reading from the cache"
EDITS = [("zigpy/zcl/__init__.py", """                if attribute in self._attr_cache:
                    success[attributes[idx]] = self._attr_cache[attribute]
                elif attribute in self.unsupported_attributes:
                    failure[attributes[idx]] = foundation.Status.UNSUPPORTED_ATTRIBUTE
""", """                if attribute in self.unsupported_attributes:
                    failure[attributes[idx]] = foundation.Status.UNSUPPORTED_ATTRIBUTE
                elif attribute in self._attr_cache:
                    success[attributes[idx]] = self._attr_cache[attribute]
""")]
DEMO = """
#BASE
async def main():
    app = make_app()
    dev = add_device(app, 1, ins=(0x0402,))
    c = dev.endpoints[1].in_clusters[0x0402]
    async def on_send(p):
        d = p.data.serialize()
        if d[2] == 0:
            asyncio.get_running_loop().call_soon(app.packet_received, packet(dev, bytes([0x18, d[1], 1, 0, 0, 0x86]), 0x0402))
    app.on_send = on_send
    ok, bad = await c.read_attributes([0])
    assert bad == {0: 0x86}, bad
    app.packet_received(packet(dev, bytes([0x18, 77, 0x0A, 0, 0, 0x29, 0x10, 0]), 0x0402))
    ok, bad = await c.read_attributes(["measured_value"], allow_cache=True)
    assert ok == {"measured_value": 16} and not bad, (ok, bad)
asyncio.run(main())
"""
