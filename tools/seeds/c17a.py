ID = "c17-partial-table-stored"
PROPERTY = "C17"
NEEDS = "a router whose table needs several pages and that stops answering after the first page, until all retries fail"
BREAKS = "the entries of the pages before the failure replace the complete table of the previous scan"
EDITS = [("zigpy/topology.py", """            status, rsp = await RETRY_SLOW(scan_request)(index)
""", """            try:
                status, rsp = await RETRY_SLOW(scan_request)(index)
            except Exception:
                if not table:
                    raise
                LOGGER.debug("Table scan stopped at index %d", index, exc_info=True)
                break
""")]
DEMO = """
#BASE
import zigpy.topology, zigpy.util
zigpy.topology.REQUEST_DELAY = (0, 0)
zigpy.topology.RETRY_SLOW = lambda f: f
async def main():
    app = make_app()
    dev = add_device(app, 1)
    n = lambda i: zt.Neighbor(extended_pan_id=ieee(99), ieee=ieee(i), nwk=t.NWK(0x1000 + i), device_type=1, rx_on_when_idle=1, relationship=1, reserved1=0,
                              permit_joining=0, reserved2=0, depth=1, lqi=9)
    add_device(app, 2); add_device(app, 3)
    old = [n(2), n(3)]
    app.topology.neighbors[dev.ieee] = list(old)
    async def lqi(index):
        if index:
            raise asyncio.TimeoutError
        return zt.Status.SUCCESS, zt.Neighbors(Entries=2, StartIndex=0, NeighborTableList=[n(2)])
    async def rtg(index):
        raise asyncio.TimeoutError
    dev.zdo.Mgmt_Lqi_req = lqi
    dev.zdo.Mgmt_Rtg_req = rtg
    await app.topology.scan([dev])
    assert app.topology.neighbors[dev.ieee] == old, app.topology.neighbors[dev.ieee]
asyncio.run(main())
"""
