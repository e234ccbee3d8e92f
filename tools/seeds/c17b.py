ID = "c17-routes-not-asked-after-neighbors-failed"
PROPERTY = "C17"
NEEDS = "a router that does not answer for its neighbor table and would answer for its routes"
BREAKS = "its routes are not read any more, the table of an earlier scan stays"
EDITS = [("zigpy/topology.py", """                LOGGER.debug("Failed to scan neighbors of %s", device, exc_info=e)
""", """                LOGGER.debug("Failed to scan neighbors of %s", device, exc_info=e)
                continue
""")]
DEMO = """
#BASE
import zigpy.topology
zigpy.topology.REQUEST_DELAY = (0, 0)
zigpy.topology.RETRY_SLOW = lambda f: f
async def main():
    app = make_app()
    dev = add_device(app, 1)
    r = zt.Route(DstNWK=0x1234, RouteStatus=0, MemoryConstrained=0, ManyToOne=0, RouteRecordRequired=0, Reserved=0, NextHop=0x1001)
    async def lqi(index):
        raise asyncio.TimeoutError
    async def rtg(index):
        return zt.Status.SUCCESS, zt.Routes(Entries=1, StartIndex=0, RoutingTableList=[r])
    dev.zdo.Mgmt_Lqi_req = lqi
    dev.zdo.Mgmt_Rtg_req = rtg
    await app.topology.scan([dev])
    assert app.topology.routes[dev.ieee] == [r], app.topology.routes[dev.ieee]
asyncio.run(main())
"""
