ID = "c11-update-rsp-fields-swapped"
PROPERTY = "C11"
NEEDS = "a network update (energy scan) response with different transmission and failure counts"
BREAKS = "transmissions and failures of an energy scan response are decoded in the wrong order"
EDITS = [("zigpy/zdo/types.py", """        ("TotalTransmissions", t.uint16_t),
        ("TransmissionFailures", t.uint16_t),
""", """        ("TransmissionFailures", t.uint16_t),
        ("TotalTransmissions", t.uint16_t),
""")]
DEMO = """
import zigpy.types as t, zigpy.zdo.types as zt
names, types = zt.CLUSTERS[zt.ZDOCmd.Mgmt_NWK_Update_rsp]
vals, rest = t.deserialize(bytes.fromhex("00" "00f8ff07" "6400" "0300" "00"), types)
got = dict(zip(names, vals))
assert got["TotalTransmissions"] == 100 and got["TransmissionFailures"] == 3, got
"""
