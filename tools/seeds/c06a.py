ID = "c06-last-seen-whole-seconds"
PROPERTY = "C06"
NEEDS = "a database of schema version 8 with a device whose last-seen time is not a whole second"
BREAKS = "the upgrade truncates last-seen times to whole seconds"
EDITS = [("zigpy/appdb.py", """            SELECT ieee, nwk, status, last_seen / 1000.0 FROM devices_v8""", """            SELECT ieee, nwk, status, last_seen / 1000 FROM devices_v8""")]
DEMO = """
#BASE
import tempfile, sqlite3
async def main():
    with tempfile.TemporaryDirectory() as d:
        con = sqlite3.connect(d + "/z.db")
        con.executescript(open(os.getcwd() + "/tests/databases/simple_v8.sql").read())
        con.execute("UPDATE devices_v8 SET last_seen = 1651119833288")
        con.commit()
        con.close()
        app = await App.new({conf.CONF_DATABASE: d + "/z.db", conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}, start_radio=False)
        seen = [dev.last_seen for dev in app.devices.values()]
        await app.shutdown()
        assert seen and all(abs(s - 1651119833.288) < 0.01 for s in seen), seen
asyncio.run(asyncio.wait_for(main(), 60))
"""
