ID = "c08-parents-behind-unknown"
PROPERTY = "C08"
NEEDS = "a sleepy device whose parent's neighbor table lists a device that is not known before the sleepy device"
BREAKS = "that parent is not asked to drop the removed device"
EDITS = [("zigpy/application.py", """                        neighbor = self.get_device(ieee=zdo_neighbor.ieee)
                    except KeyError:
                        continue
""", """                        neighbor = self.get_device(ieee=zdo_neighbor.ieee)
                    except KeyError:
                        break
""")]
DEMO = """
#BASE
async def main():
    app = make_app()
    parent = add_device(app, 1)
    dev = add_device(app, 2, logical=zt.LogicalType.EndDevice)
    n = lambda i: zt.Neighbor(extended_pan_id=ieee(99), ieee=ieee(i), nwk=t.NWK(0x1000 + i), device_type=2, rx_on_when_idle=0, relationship=1, reserved1=0,
                              permit_joining=0, reserved2=0, depth=1, lqi=9)
    app.topology.neighbors[parent.ieee] = [n(7), n(2)]
    await app.remove(dev.ieee)
    await asyncio.sleep(0.1)
    asked = [p for p in app.sent if p.cluster_id == 0x0034 and p.dst.address == parent.nwk]
    assert len(asked) == 1, app.sent
asyncio.run(main())
"""
