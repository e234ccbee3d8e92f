ID = "c31-lightlink-reply-profile"
PROPERTY = "C31"
NEEDS = "a reply with a command of 0x40 or above on the light-link cluster of a light-link endpoint"
BREAKS = "replies of light-link commissioning groups are sent with the light-link instead of the automation profile"
EDITS = [("zigpy/zcl/__init__.py", """        return await self._endpoint.reply(
            cluster=self.cluster_id,
            sequence=hdr.tsn,
            data=data,
            command_id=hdr.command_id,
""", """        return await self._endpoint.reply(
            cluster=self.cluster_id,
            sequence=hdr.tsn,
            data=data,
""")]
DEMO = """
#BASE
async def main():
    app = make_app()
    dev = add_device(app, 1, outs=(0x1000,), ins=(0x1000,), profile=0xC05E, dtype=0x0800)
    ep = dev.endpoints[1]
    await ep.out_clusters[0x1000].get_group_identifiers_rsp(total=0, start_index=0, group_info_records=[])
    await asyncio.sleep(0.05)
    assert len(app.sent) == 1 and app.sent[0].profile_id == 0x0104, app.sent
asyncio.run(main())
"""
