ID = "c14-empty-scan-ignored"
PROPERTY = "C14"
NEEDS = "a membership scan the device answers with an empty list while memberships are known"
BREAKS = "memberships the device no longer has survive a scan that reports none"
EDITS = [("zigpy/endpoint.py", """        groups = set(res[1])
        self.device.application.groups.update_group_membership(self, groups)
""", """        groups = set(res[1])

        if not groups and res[0] == 0x00:
            self.debug("Group table is not available")
            return

        self.device.application.groups.update_group_membership(self, groups)
""")]
DEMO = """
#BASE
async def main():
    app = make_app()
    dev = add_device(app, 1, ins=(4, 6))
    ep = dev.endpoints[1]
    app.groups.add_group(5).add_member(ep)
    cap = [8]
    async def on_send(p):
        d = p.data.serialize()
        asyncio.get_running_loop().call_soon(app.packet_received, packet(dev, bytes([0x09, d[1], 2, cap[0], 0]), 4))
    app.on_send = on_send
    await ep.group_membership_scan()
    assert not ep.member_of and not app.groups[5].members
    app.groups[5].add_member(ep)
    cap[0] = 0
    await asyncio.sleep(0.6)
    await ep.group_membership_scan()
    assert not ep.member_of and not app.groups[5].members, ep.member_of
asyncio.run(main())
"""
