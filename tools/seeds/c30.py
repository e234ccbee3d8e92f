ID = "c30-earlier-deadline"
PROPERTY = "C30"
NEEDS = "moving the deadline earlier while the pending timer is later, after it had first been moved later"
BREAKS = "the timer fires at a later deadline than the last one it was given, or keeps rearming"
EDITS = [("zigpy/datastructures.py", """        if self._timer is None or self._timer.when() > self._when:
            self._reschedule()
""", """        if self._timer is None or self._loop.time() >= self._timer.when() > self._when:
            self._reschedule()
""")]
DEMO = """
import asyncio
from zigpy.datastructures import ReschedulableTimeout

async def main():
    fired = []
    loop = asyncio.get_running_loop()
    r = ReschedulableTimeout(lambda: fired.append(loop.time()))
    t0 = loop.time()
    r.reschedule(0.2)
    r.reschedule(0.6)
    await asyncio.sleep(0.3)
    r.reschedule(0.05)
    await asyncio.sleep(0.15)
    assert len(fired) == 1, fired
    await asyncio.sleep(0.4)
    assert len(fired) == 1, fired

asyncio.run(main())
"""
