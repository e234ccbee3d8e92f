PROPERTY = "C23"
ID = "c23-temporary-network-any-channel"
NEEDS = "forming on a radio that cannot scan before it has a network, with channel 11 not among the allowed channels"
BREAKS = "the temporary network is formed on a channel that is not allowed"
EDITS = [("zigpy/application.py", "            channel = next(iter(channels))", "            channel = next(iter(t.Channels.ALL_CHANNELS))")]
DEMO = """
#BASE
import zigpy.exceptions
async def main():
    app = make_app(**{conf.CONF_NWK: {conf.CONF_NWK_CHANNELS: [20, 25]}})
    written = []
    async def write(*, network_info, node_info):
        written.append(network_info.channel)
    async def start():
        if not written:
            raise zigpy.exceptions.NetworkNotFormed()
    async def scan(channels, duration_exp, count):
        return {c: 1 for c in range(11, 27)}
    app.write_network_info, app.start_network, app.energy_scan = write, start, scan
    await app.form_network()
    assert len(written) == 2 and all(c in (20, 25) for c in written), written
asyncio.run(main())
"""
