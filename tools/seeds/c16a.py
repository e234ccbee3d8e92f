PROPERTY = "C16"
ID = "c16-child-without-address-lost"
NEEDS = "a child without a network address that has a link key, exported in the open format"
BREAKS = "it is exported as not being a child; importing the document loses it from the children"
EDITS = [("zigpy/backups.py", "        if key.partner_ieee not in devices:", "        if not devices.get(key.partner_ieee, {}).get(\"nwk_address\"):")]
DEMO = """
#BASE
import zigpy.backups
ni = zigpy.state.NetworkInfo(pan_id=t.PanId(0x1234), channel=15, extended_pan_id=t.EUI64.convert("11:22:33:44:55:66:77:88"),
    network_key=zigpy.state.Key(key=t.KeyData(range(16)), tx_counter=7), children=[ieee(3)], nwk_addresses={},
    key_table=[zigpy.state.Key(key=t.KeyData(range(1, 17)), tx_counter=1, rx_counter=2, seq=3, partner_ieee=ieee(3))])
b = zigpy.backups.NetworkBackup(network_info=ni, node_info=zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=COORD, logical_type=zt.LogicalType.Coordinator))
c = zigpy.backups.NetworkBackup.from_dict(b.as_open_coordinator_json())
assert c.network_info.children == [ieee(3)], c.network_info
assert len(c.network_info.key_table) == 1
"""
