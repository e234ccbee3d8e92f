PROPERTY = "C24"
ID = "c24-purge-by-prefix"
NEEDS = "definitions in a folder whose name starts with the name of the purged folder"
BREAKS = "they are purged as well"
EDITS = [("zigpy/quirks/registry.py", "                if entry.quirk_file.is_relative_to(custom_quirks_root):", "                if str(entry.quirk_file).startswith(str(custom_quirks_root)):")]
DEMO = """
#BASE
import pathlib
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2 import QuirkBuilder, CustomDeviceV2
async def main():
    app = make_app()
    dev = add_device(app, 1, ins=[0, 6], outs=[6])
    dev.manufacturer, dev.model = "A", "x"
    reg = DeviceRegistry()
    b = QuirkBuilder("A", "x", registry=reg)
    b.quirk_file = pathlib.Path("/q/custom_lib/a.py")
    b.add_to_registry()
    reg.purge_custom_quirks(pathlib.Path("/q/custom"))
    assert isinstance(reg.get_device(dev), CustomDeviceV2)
    reg.purge_custom_quirks(pathlib.Path("/q/custom_lib"))
    assert reg.get_device(dev) is dev
asyncio.run(main())
"""
