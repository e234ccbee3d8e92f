ID = "c10-truncated-reporting-config"
PROPERTY = "C10"
NEEDS = "a reporting configuration of an analog attribute that ends right before its reportable change"
BREAKS = "a truncated reporting configuration is accepted as one without a reportable change"
EDITS = [("zigpy/zcl/foundation.py", """                if data_type.type_class is Analog:
                    self.reportable_change, data""", """                if data_type.type_class is Analog and data:
                    self.reportable_change, data""")]
DEMO = """
from zigpy.zcl import foundation as f
good = bytes.fromhex("00" "0500" "21" "0100" "0200" "0a00")
c, rest = f.AttributeReportingConfig.deserialize(good)
assert c.reportable_change == 10 and not rest
try:
    f.AttributeReportingConfig.deserialize(good[:-2])
except ValueError:
    pass
else:
    raise SystemExit("accepted a truncated configuration")
"""
