ID = "c22-finished-run-shared"
PROPERTY = "C22"
NEEDS = "a call that is made after the running operation has ended and before the callers that wait for it have been resumed"
BREAKS = "that call is given the old result instead of starting the operation afresh"
EDITS = [("zigpy/util.py", """        if key not in tasks or tasks[key].done():
            tasks[key] = asyncio.create_task(function(*args, **kwargs))
""", """        if key not in tasks:
            tasks[key] = asyncio.create_task(function(*args, **kwargs))
""")]
DEMO = """
import asyncio
from zigpy.util import combine_concurrent_calls
runs, late = [], []
@combine_concurrent_calls
async def op():
    runs.append(len(runs) + 1)
    n = runs[-1]
    await asyncio.sleep(0.02)
    if n == 1:
        late.append(asyncio.create_task(op()))
    return n
async def main():
    first = await op()
    second = await late[0]
    assert (first, second) == (1, 2), (first, second, runs)
asyncio.run(main())
"""
