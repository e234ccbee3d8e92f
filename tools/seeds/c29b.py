PROPERTY = "C29"
ID = "c29-update-id-256"
NEEDS = "a network update id of exactly 256 in the configuration"
BREAKS = "it is accepted although it does not fit into the field"
EDITS = [("zigpy/config/__init__.py", "        vol.Optional(CONF_NWK_UPDATE_ID, default=CONF_NWK_UPDATE_ID_DEFAULT): vol.All(\n            cv_hex, vol.Range(min=0, max=255)", "        vol.Optional(CONF_NWK_UPDATE_ID, default=CONF_NWK_UPDATE_ID_DEFAULT): vol.All(\n            cv_hex, vol.Range(min=0, max=256)")]
DEMO = """
import zigpy.config as c, voluptuous as vol
for v in (256, "0x100"):
    try:
        c.CONFIG_SCHEMA({"database_path": None, "device": {"path": "/dev/null"}, "network": {"update_id": v}})
    except vol.Invalid:
        pass
    else:
        raise SystemExit(1)
c.CONFIG_SCHEMA({"database_path": None, "device": {"path": "/dev/null"}, "network": {"update_id": 255}})
"""
