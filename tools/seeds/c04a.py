ID = "c04-clear-both-directions"
PROPERTY = "C04"
NEEDS = "an endpoint with the same cluster as server and as client, the same attribute cached on both, and one of them cleared"
BREAKS = "clearing a cached attribute also deletes the row of the opposite cluster, which is gone after a restart"
EDITS = [("zigpy/appdb.py", """                AND endpoint_id = :endpoint_id
                AND cluster_type = :cluster_type
                AND cluster_id = :cluster_id
                AND attr_id = :attr_id
""", """                AND endpoint_id = :endpoint_id
                AND cluster_id = :cluster_id
                AND attr_id = :attr_id
""")]
DEMO = """
#BASE
import tempfile
async def main():
    with tempfile.TemporaryDirectory() as d:
        cfg = {conf.CONF_DATABASE: d + "/z.db"}
        app = await App.new({**{conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}, **cfg}, start_radio=False)
        app.sent = []
        dev = add_device(app, 1, ins=(0, 6), outs=(6,))
        dev.status = zigpy.device.Status.ENDPOINTS_INIT
        dev.model, dev.manufacturer = "m", "x"
        app.device_initialized(dev)
        ep = app.devices[ieee(1)].endpoints[1]
        ep.in_clusters[6].update_attribute(0, 1)
        ep.out_clusters[6].update_attribute(0, 1)
        ep.out_clusters[6].update_attribute(0, None) if False else None
        app._dblistener.attribute_cleared(ep.out_clusters[6], 0)
        await app.shutdown()
        app = await App.new({**{conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}, **cfg}, start_radio=False)
        app.sent = []
        v = app.devices[ieee(1)].endpoints[1].in_clusters[6].get(0)
        await app.shutdown()
        assert v == 1, v
import zigpy.device
asyncio.run(main())
"""
