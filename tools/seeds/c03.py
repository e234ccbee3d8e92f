ID = "c03-dst-ignored"
PROPERTY = "C03"
NEEDS = "two packets within the window that differ only in their destination address"
BREAKS = "the same command sent to us both as unicast and to a group is processed only once"
EDITS = [("zigpy/device.py", "obj=packet.replace(timestamp=None, tsn=None, lqi=None, rssi=None),",
 "obj=packet.replace(\n                dst=None, timestamp=None, tsn=None, lqi=None, rssi=None\n            ),")]
DEMO = """
import asyncio
from unittest.mock import MagicMock
import zigpy.device, zigpy.types as t
from zigpy.zcl import foundation

async def main():
    app = MagicMock()
    app._req_listeners = __import__("collections").defaultdict(list)
    dev = zigpy.device.Device(app, t.EUI64.convert("00:11:22:33:44:55:66:77"), t.NWK(0x1234))
    ep = dev.add_endpoint(1)
    ep.add_output_cluster(6)
    got = []
    ep.handle_message = lambda *a, **k: got.append(1)
    for dst in (t.AddrModeAddress(t.AddrMode.NWK, t.NWK(0)), t.AddrModeAddress(t.AddrMode.Group, t.Group(5))):
        dev.packet_received(t.ZigbeePacket(
            src=t.AddrModeAddress(t.AddrMode.NWK, t.NWK(0x1234)), src_ep=1, dst=dst, dst_ep=1,
            profile_id=260, cluster_id=6, tsn=1, data=t.SerializableBytes(b"\\x01\\x05\\x01")))
    assert len(got) == 2, got

asyncio.run(main())
"""
