ID = "c33-undefined-attribute-hides-code"
PROPERTY = "C33"
NEEDS = "a request of a definition's cluster that names an attribute the definition does not know before a manufacturer-specific one"
BREAKS = "the request is sent without the manufacturer code, so the device does not recognize the attribute"
EDITS = [("zigpy/quirks/__init__.py", """        for attr_id in attrs_to_process:
            if (
                attr_id in self.attributes
                and self.attributes[attr_id].is_manufacturer_specific
            ):
                return True

        return False
""", """        for attr_id in attrs_to_process:
            attr_def = self.attributes.get(attr_id)
            if attr_def is None:
                break
            if attr_def.is_manufacturer_specific:
                return True

        return False
""")]
DEMO = """
#BASE
from zigpy.quirks import CustomCluster
from zigpy.zcl.foundation import BaseAttributeDefs, ZCLAttributeDef
class Mine(CustomCluster):
    cluster_id = 0x0B05
    ep_attribute = "mine"
    class AttributeDefs(BaseAttributeDefs):
        std = ZCLAttributeDef(id=0x0000, type=t.uint8_t)
        man = ZCLAttributeDef(id=0x0001, type=t.uint8_t, is_manufacturer_specific=True)
async def main():
    app = make_app()
    dev = add_device(app, 1)
    ep = dev.endpoints[1]
    cl = ep.add_input_cluster(0x0B05, Mine(ep, is_server=True))
    for ids in ([0x0000, 0x0001], [0x0001, 0x7777], [0x7777, 0x0001]):
        task = asyncio.create_task(cl.read_attributes(ids))
        await asyncio.sleep(0.05)
        task.cancel()
        data = app.sent[-1].data.serialize()
        assert data[0] & 4 and data[1:3] == struct.pack("<H", 4174), (ids, data)
asyncio.run(main())
"""
