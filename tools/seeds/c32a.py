ID = "c32-index-never-reread"
PROPERTY = "C32"
NEEDS = "a source that is asked again more than a day after its index was read, by the same running process"
BREAKS = "the age of the index is compared without its days, so it is never read again and withdrawn or new images are never noticed"
EDITS = [("zigpy/ota/providers.py", """        # Don't hammer the OTA indexes too frequently
        if now - self._index_last_updated < self.INDEX_EXPIRATION_TIME:
            return None
""", """        # Don't hammer the OTA indexes too frequently
        age = (now - self._index_last_updated).seconds
        if (
            self._index_last_updated.timestamp() > 0
            and age < self.INDEX_EXPIRATION_TIME.total_seconds()
        ):
            return None
""")]
DEMO = """
import asyncio, datetime, types
import zigpy.ota.providers as zp
NOW = [datetime.datetime(2024, 5, 1, 12, tzinfo=datetime.timezone.utc)]
class Clock(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return NOW[0]
real = zp.datetime
zp.datetime = types.SimpleNamespace(datetime=Clock, timedelta=real.timedelta, timezone=real.timezone)
loads = []
class P(zp.BaseOtaProvider):
    NAME = "demo"
    async def _load_index(self, session):
        loads.append(NOW[0])
        yield zp.BaseOtaImageMetadata(file_version=len(loads))
async def main():
    p = P(url="https://example.org/index.json")
    assert [m.file_version for m in await p.load_index()] == [1]
    NOW[0] += datetime.timedelta(hours=23)
    assert await p.load_index() is None
    NOW[0] += datetime.timedelta(hours=3)
    again = await p.load_index()
    assert again is not None and [m.file_version for m in again] == [2], again
asyncio.run(main())
"""
