ID = "c13-partial-write-cached"
PROPERTY = "C13"
NEEDS = "a write of two attributes of which one fails with a status other than read-only"
BREAKS = "an attribute whose write the device refused is cached as if it had been written"
EDITS = [("zigpy/zcl/__init__.py", """            failed = [rec.attrid for rec in records]
""", """            failed = [
                rec.attrid
                for rec in records
                if rec.status >= foundation.Status.UNSUP_CLUSTER_COMMAND
            ]
""")]
DEMO = """
#BASE
async def main():
    app = make_app()
    dev = add_device(app, 1, ins=(0x0201,))
    c = dev.endpoints[1].in_clusters[0x0201]
    async def on_send(p):
        d = p.data.serialize()
        if d[2] == 2:
            asyncio.get_running_loop().call_soon(app.packet_received, packet(dev, bytes([0x18, d[1], 4, 0x7E, 0x12, 0]), 0x0201))
    app.on_send = on_send
    await c.write_attributes({0x12: 16, 0x1C: 4})
    assert c.get(0x12) is None, c.get(0x12)
    assert c.get(0x1C) == 4
asyncio.run(main())
"""
