ID = "c06-untouched-attributes-forgotten"
PROPERTY = "C06"
NEEDS = "a database of version 12 with an attribute never updated since the upgrade to version 12"
BREAKS = "the upgrade to version 13 drops cached attributes whose update time is unknown"
EDITS = [("zigpy/appdb.py", """        async with self.execute("SELECT * FROM attributes_cache_v12") as cursor:""",
 """        async with self.execute(
            "SELECT * FROM attributes_cache_v12 WHERE last_updated OR attrid < 0x4000"
        ) as cursor:""")]
DEMO = """
#BASE
import tempfile, sqlite3
async def main():
    with tempfile.TemporaryDirectory() as d:
        con = sqlite3.connect(d + "/z.db")
        con.executescript(open(os.getcwd() + "/tests/databases/simple_v5.sql").read())
        row = con.execute("SELECT * FROM in_clusters_v5 LIMIT 1").fetchone()
        con.execute("INSERT INTO attributes_cache_v5 VALUES (?,?,?,?,?)", (*row, 0x4003, 1))
        con.commit()
        con.close()
        app = await App.new({conf.CONF_DATABASE: d + "/z.db", conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}, start_radio=False)
        await app.shutdown()
        con = sqlite3.connect(d + "/z.db")
        n = con.execute("SELECT count(*) FROM attributes_cache_v13 WHERE attr_id = 0x4003").fetchone()[0]
        con.close()
        assert n == 1, n
asyncio.run(asyncio.wait_for(main(), 60))
"""
