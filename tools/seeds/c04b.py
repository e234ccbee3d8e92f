ID = "c04-client-cache-not-stored"
PROPERTY = "C04"
NEEDS = "an attribute of a client cluster that is already cached when the device is first stored"
BREAKS = "only the attributes of server clusters are stored with the device, the others are gone after a restart"
EDITS = [("zigpy/appdb.py", """            for cluster in ep.clusters
            for attrid, value in cluster._attr_cache.items()
""", """            for cluster in ep.in_clusters.values()
            for attrid, value in cluster._attr_cache.items()
""")]
DEMO = """
#BASE
import tempfile
import zigpy.device
async def main():
    with tempfile.TemporaryDirectory() as d:
        cfg = {conf.CONF_DATABASE: d + "/z.db", conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}
        app = await App.new(cfg, start_radio=False)
        app.sent = []
        dev = add_device(app, 1, ins=(0, 6), outs=(6,))
        dev.status = zigpy.device.Status.ENDPOINTS_INIT
        dev.model, dev.manufacturer = "m", "x"
        dev.endpoints[1].in_clusters[6].update_attribute(0, 1)
        dev.endpoints[1].out_clusters[6].update_attribute(0, 1)
        app.device_initialized(dev)
        await app.shutdown()
        app = await App.new(cfg, start_radio=False)
        app.sent = []
        ep = app.devices[ieee(1)].endpoints[1]
        got = ep.in_clusters[6].get(0), ep.out_clusters[6].get(0)
        await app.shutdown()
        assert got == (1, 1), got
asyncio.run(main())
"""
