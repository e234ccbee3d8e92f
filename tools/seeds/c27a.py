ID = "c27-addr-request-broadcast"
PROPERTY = "C27"
NEEDS = "an IEEE address request for a broadcast address that does not include the coordinator's kind (0xFFFB or 0xFFF8..0xFFFF others)"
BREAKS = "address requests that do not concern the coordinator (low power routers, reserved broadcasts) are answered"
EDITS = [("zigpy/zdo/__init__.py", """        if nwk in (
            t.BroadcastAddress.ALL_DEVICES,
            t.BroadcastAddress.RX_ON_WHEN_IDLE,
            t.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR,
            app.state.node_info.nwk,
        ):
""", """        if (
            nwk == app.state.node_info.nwk
            or nwk >= t.BroadcastAddress.LOW_POWER_ROUTER
        ):
""")]
DEMO = """
import asyncio
import zigpy.types as t, zigpy.config as conf, zigpy.application, zigpy.state, zigpy.zdo.types as zt
class App(zigpy.application.ControllerApplication):
    async def send_packet(self, p): self.sent.append(p)
    async def connect(self): pass
    async def disconnect(self): pass
    async def start_network(self): pass
    async def force_remove(self, dev): pass
    async def add_endpoint(self, d): pass
    async def permit_ncp(self, time_s=60): pass
    async def permit_with_link_key(self, node, link_key, time_s=60): pass
    async def reset_network_info(self): pass
    async def write_network_info(self, *, network_info, node_info): pass
    async def load_network_info(self, *, load_devices=False): pass
async def main():
    app = App({conf.CONF_DATABASE: None, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}})
    app.sent = []
    app.state.node_info = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=t.EUI64.convert("aa:11:22:bb:33:44:be:ef"), logical_type=zt.LogicalType.Coordinator)
    dev = app.add_device(t.EUI64.convert("00:0d:6f:00:0a:90:69:01"), t.NWK(0x1001))
    def ask(nwk, tsn):
        dev.zdo.handle_message(0, 1, zt.ZDOHeader(1, tsn), [t.NWK(nwk), zt.AddrRequestType.Single, 0])
    for i, n in enumerate((0x0000, 0xFFFC, 0xFFFD, 0xFFFF)):
        ask(n, i)
    await asyncio.sleep(0.05)
    assert len(app.sent) == 4, len(app.sent)
    for i, n in enumerate((0x1001, 0xFFF7, 0xFFFB, 0xFFFE)):
        ask(n, i)
    await asyncio.sleep(0.05)
    assert len(app.sent) == 4, len(app.sent)
asyncio.run(main())
"""
