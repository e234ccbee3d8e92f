ID = "c02-request-direction-resolves"
PROPERTY = "C02"
NEEDS = "a pending request and an unsolicited command from the same device that happens to use the same transaction number"
BREAKS = "a manufacturer specific or general command in the request direction completes a pending request with foreign data"
EDITS = [("zigpy/device.py", """            hdr.direction == foundation.Direction.Server_to_Client
            if isinstance(hdr, foundation.ZCLHeader)""", """            hdr.direction == foundation.Direction.Server_to_Client
            or hdr.frame_control.is_general
            if isinstance(hdr, foundation.ZCLHeader)""")]
DEMO = """
import asyncio
from unittest.mock import MagicMock, AsyncMock
import zigpy.device, zigpy.types as t

async def main():
    app = MagicMock()
    app.request = AsyncMock()
    app._req_listeners = __import__("collections").defaultdict(list)
    dev = zigpy.device.Device(app, t.EUI64.convert("00:11:22:33:44:55:66:77"), t.NWK(0x1234))
    ep = dev.add_endpoint(1)
    ep.add_output_cluster(10)
    ep.handle_message = lambda *a, **k: None
    task = asyncio.create_task(dev.request(260, 10, 1, 1, 7, b"", timeout=0.3))
    await asyncio.sleep(0.05)
    # the device reads an attribute of our Time cluster
    dev.packet_received(t.ZigbeePacket(
        src=t.AddrModeAddress(t.AddrMode.NWK, t.NWK(0x1234)), src_ep=1,
        dst=t.AddrModeAddress(t.AddrMode.NWK, t.NWK(0)), dst_ep=1,
        profile_id=260, cluster_id=10, tsn=7, data=t.SerializableBytes(b"\\x00\\x07\\x00\\x00\\x00")))
    await asyncio.sleep(0.05)
    assert not task.done(), task
    task.cancel()

asyncio.run(main())
"""
