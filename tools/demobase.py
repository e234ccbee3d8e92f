import asyncio, struct
import zigpy.types as t, zigpy.config as conf, zigpy.application, zigpy.state, zigpy.zdo.types as zt, zigpy.endpoint
class App(zigpy.application.ControllerApplication):
    on_send = None
    async def send_packet(self, p):
        self.sent.append(p)
        if self.on_send is not None:
            await self.on_send(p)
    async def connect(self): pass
    async def disconnect(self): pass
    async def start_network(self): pass
    async def force_remove(self, dev): pass
    async def add_endpoint(self, d): pass
    async def permit_ncp(self, time_s=60): pass
    async def permit_with_link_key(self, node, link_key, time_s=60): pass
    async def reset_network_info(self): pass
    async def write_network_info(self, *, network_info, node_info): pass
    async def load_network_info(self, *, load_devices=False): pass
def ieee(n): return t.EUI64.convert("00:0d:6f:00:0a:90:69:%02x" % n)
COORD = t.EUI64.convert("aa:11:22:bb:33:44:be:ef")
def make_app(**over):
    cfg = {conf.CONF_DATABASE: None, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}
    cfg.update(over)
    app = App(cfg)
    app.sent = []
    app.state.node_info = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=COORD, logical_type=zt.LogicalType.Coordinator)
    return app
def add_device(app, n, ins=(), outs=(), logical=zt.LogicalType.Router, profile=260, dtype=0x0100, eps=(1,), nwk=None):
    dev = app.add_device(ieee(n), t.NWK(0x1000 + n if nwk is None else nwk))
    F = zt.NodeDescriptor.MACCapabilityFlags
    dev.node_desc = zt.NodeDescriptor(logical_type=logical, complex_descriptor_available=0, user_descriptor_available=0, reserved=0, aps_flags=0,
        frequency_band=zt.NodeDescriptor.FrequencyBand.Freq2400MHz, mac_capability_flags=F.AllocateAddress | F.RxOnWhenIdle | F.MainsPowered,
        manufacturer_code=4174, maximum_buffer_size=82, maximum_incoming_transfer_size=82, server_mask=0, maximum_outgoing_transfer_size=82,
        descriptor_capability_field=zt.NodeDescriptor.DescriptorCapability.NONE)
    for e in eps:
        ep = dev.add_endpoint(e)
        ep.status = zigpy.endpoint.Status.ZDO_INIT
        ep.profile_id = profile
        ep.device_type = dtype
        for c in ins: ep.add_input_cluster(c)
        for c in outs: ep.add_output_cluster(c)
    return dev
def packet(dev, data, cluster, src_ep=1, dst_ep=1, profile=260, dst=None, **kw):
    return t.ZigbeePacket(src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=src_ep,
        dst=dst or t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), dst_ep=dst_ep, profile_id=profile, cluster_id=cluster, tsn=0,
        data=t.SerializableBytes(bytes(data)), **kw)
