ID = "c21-first-matcher-decides"
PROPERTY = "C21"
NEEDS = "a listener with several matchers of which one that is no function or fails to match comes before a matching one"
BREAKS = "a listener waiting for one of several responses misses a match that is not its first matcher of that kind"
EDITS = [("zigpy/listeners.py", """            if match:
                return self._resolve(hdr, command)
""", """            if match:
                return self._resolve(hdr, command)

            if match is None and not is_matcher_cmd:
                # The matcher does not apply to this frame
                break
""")]
DEMO = """
#BASE
from zigpy.zcl.clusters.general import OnOff
async def main():
    app = make_app()
    dev = add_device(app, 1, ins=(6,))
    got = []
    with app.wait_for_response(dev, [lambda h, c: None, lambda h, c: True]) as fut:
        app.packet_received(packet(dev, bytes([0x18, 9, 0x0A, 0, 0, 0x10, 1]), 6))
        assert fut.done()
asyncio.run(main())
"""
