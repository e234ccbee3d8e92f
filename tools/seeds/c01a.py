ID = "c01-lowered-limit-not-locked"
PROPERTY = "C01"
NEEDS = "lowering the limit below the number of slots held and asking whether a request can start immediately"
BREAKS = "the limiter claims that a slot is free while more slots are held than allowed"
EDITS = [("zigpy/datastructures.py", "        return self._value <= 0", "        return self._value == 0")]
DEMO = """
import asyncio
from zigpy.datastructures import PriorityDynamicBoundedSemaphore
async def main():
    s = PriorityDynamicBoundedSemaphore(2)
    await s.acquire(); await s.acquire()
    assert s.locked()
    s.max_value = 1
    assert s.locked()
    s.release()
    assert s.locked()
    s.release()
    assert not s.locked()
asyncio.run(main())
"""
