ID = "c22-named-arguments-ignored"
PROPERTY = "C22"
NEEDS = "two calls at the same time that differ only in an argument that can only be given by name"
BREAKS = "different arguments are combined: one caller gets the result for the other's argument"
EDITS = [("zigpy/util.py", """        key = tuple(bound.arguments.items())
""", """        key = bound.args
""")]
DEMO = """
import asyncio
from zigpy.util import combine_concurrent_calls
@combine_concurrent_calls
async def op(a, *, by=None):
    await asyncio.sleep(0.02)
    return a, by
async def main():
    res = await asyncio.gather(op(1, by=2), op(1, by=3), op(1))
    assert res == [(1, 2), (1, 3), (1, None)], res
asyncio.run(main())
"""
