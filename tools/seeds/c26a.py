ID = "c26-late-answer-crash"
PROPERTY = "C26"
NEEDS = "an undecodable answer arriving for a request whose caller was already answered but has not yet resumed"
BREAKS = "a malformed second answer to a request raises out of packet_received"
EDITS = [("zigpy/device.py", """            try:
                if error is not None:
                    future.result.set_exception(error)
                else:
                    future.result.set_result(args)
            except asyncio.InvalidStateError:
""", """            if error is not None:
                future.result.set_exception(error)
                return

            try:
                future.result.set_result(args)
            except asyncio.InvalidStateError:
""")]
DEMO = """
#BASE
async def main():
    app = make_app()
    dev = add_device(app, 1, ins=(6,))
    c = dev.endpoints[1].in_clusters[6]
    bad = []
    async def on_send(p):
        d = p.data.serialize()
        def twice():
            app.packet_received(packet(dev, bytes([0x18, d[1], 1, 0, 0, 0, 0x10, 1]), 6))
            try:
                app.packet_received(packet(dev, bytes([0x18, d[1], 1, 0]), 6))
            except Exception as e:
                bad.append(e)
        asyncio.get_running_loop().call_soon(twice)
    app.on_send = on_send
    ok, _ = await c.read_attributes([0])
    assert ok == {0: 1}
    assert not bad, bad
asyncio.run(main())
"""
