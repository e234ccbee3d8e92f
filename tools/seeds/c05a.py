ID = "c05-endpoints-committed-early"
PROPERTY = "C05"
NEEDS = "the process stops between writing the endpoints and the clusters of a newly initialized device"
BREAKS = "the saving of a device is no longer atomic: after the crash it is loaded without its clusters"
EDITS = [("zigpy/appdb.py", """                        status=excluded.status\"\"\"

        await self._db.executemany(q, rows)
""", """                        status=excluded.status\"\"\"

        await self._db.executemany(q, rows)
        await self._db.commit()
""")]
DEMO = """
#BASE
import tempfile, shutil, sqlite3, glob
import aiosqlite, zigpy.device
copies = []
async def main():
    with tempfile.TemporaryDirectory() as d:
        app = await App.new({conf.CONF_DATABASE: d + "/z.db", conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}, start_radio=False)
        app.sent = []
        orig = aiosqlite.Connection.executemany
        def many(self, *a):
            n = len(copies)
            copies.append(d + "/copy%d" % n)
            os.mkdir(copies[-1])
            for f in glob.glob(d + "/z.db*"):
                if not f.endswith("-shm"):
                    shutil.copy(f, copies[-1])
            return orig(self, *a)
        aiosqlite.Connection.executemany = many
        dev = add_device(app, 1, ins=(0, 6), outs=(6,))
        dev.status = zigpy.device.Status.ENDPOINTS_INIT
        dev.model, dev.manufacturer = "m", "x"
        app.device_initialized(dev)
        await app.shutdown()
        assert copies
        for c in copies:
            con = sqlite3.connect(c + "/z.db")
            have = [con.execute("SELECT count(*) FROM %s_v13" % n).fetchone()[0] for n in ("devices", "endpoints", "clusters")]
            con.close()
            assert have in ([0, 0, 0], [1, 1, 3]), have
asyncio.run(main())
"""
