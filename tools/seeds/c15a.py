PROPERTY = "C15"
ID = "c15-live-state-shared"
NEEDS = "a backup taken, then the live network state changed in place (an address learned, a link key added)"
BREAKS = "the stored backup shares its tables with the live state and changes along with it"
EDITS = [("zigpy/backups.py", "            network_info=copy.deepcopy(self.app.state.network_info),", "            network_info=copy.copy(self.app.state.network_info),")]
DEMO = """
#BASE
async def main():
    app = make_app()
    ni = app.state.network_info
    ni.pan_id, ni.channel = t.PanId(0x1234), 15
    ni.extended_pan_id = t.EUI64.convert("11:22:33:44:55:66:77:88")
    ni.network_key = zigpy.state.Key(key=t.KeyData(range(16)), tx_counter=5)
    b = await app.backups.create_backup()
    before = b.as_dict()
    app.state.network_info.nwk_addresses[ieee(9)] = t.NWK(0x4321)
    assert b.as_dict() == before
    app.state.network_info.network_key.tx_counter = 99
    assert app.backups.backups[0].as_dict() == before
asyncio.run(main())
"""
