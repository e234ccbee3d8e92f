ID = "c22-decorator-delay-lost"
PROPERTY = "C22"
NEEDS = "a decorated operation with a non-default delay that fails at least once"
BREAKS = "the delay between attempts given to the decorator is ignored"
EDITS = [("zigpy/util.py", """                retry_exceptions,
                tries=tries,
                delay=delay,
            )
""", """                retry_exceptions,
                tries=tries,
            )
""")]
DEMO = """
import asyncio, time
import zigpy.util

calls = []

@zigpy.util.retryable((ValueError,), tries=3, delay=0.4)
async def op():
    calls.append(time.monotonic())
    if len(calls) < 3:
        raise ValueError

asyncio.run(op())
assert calls[1] - calls[0] > 0.35 and calls[2] - calls[1] > 0.35, calls
"""
