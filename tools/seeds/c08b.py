ID = "c08-parents-lose-rejoin"
PROPERTY = "C08"
NEEDS = "a sleepy device that is removed with the request to rejoin but without its children"
BREAKS = "its parents are asked to drop it for good"
EDITS = [("zigpy/application.py", """                if rejoin:
                    opts |= parent.zdo.LeaveOptions.Rejoin
""", """                if rejoin and remove_children:
                    opts |= parent.zdo.LeaveOptions.Rejoin
""")]
DEMO = """
#BASE
async def main():
    for children in (True, False):
        app = make_app()
        parent = add_device(app, 1)
        dev = add_device(app, 2, logical=zt.LogicalType.EndDevice)
        app.topology.neighbors[parent.ieee] = [zt.Neighbor(extended_pan_id=ieee(99), ieee=dev.ieee, nwk=dev.nwk, device_type=2, rx_on_when_idle=0, relationship=1,
                                                           reserved1=0, permit_joining=0, reserved2=0, depth=1, lqi=9)]
        await app.remove(dev.ieee, remove_children=children, rejoin=True)
        await asyncio.sleep(0.1)
        asked = [p.data.serialize() for p in app.sent if p.cluster_id == 0x0034 and p.dst.address == parent.nwk]
        assert len(asked) == 1 and asked[0][9] & 0x80, asked
asyncio.run(main())
"""
