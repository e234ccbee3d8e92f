PROPERTY = "C25"
ID = "c25-odd-backup-failure-ends-schedule"
NEEDS = "a periodic backup failing with an error that is neither an OS error nor one of zigpy's"
BREAKS = "the periodic backups end after that failure"
EDITS = [("zigpy/backups.py", "            except Exception:  # noqa: BLE001\n                LOGGER.warning(\"Failed to create a network backup\"", "            except (OSError, RuntimeError, zigpy.exceptions.ZigbeeException):\n                LOGGER.warning(\"Failed to create a network backup\""),
         ("zigpy/backups.py", "import zigpy.config as conf\n", "import zigpy.config as conf\nimport zigpy.exceptions\n")]
DEMO = """
#BASE
async def main():
    app = make_app()
    n = []
    async def load(*, load_devices=False):
        n.append(1)
        if len(n) == 1:
            raise ValueError("unexpected response from the radio")
    app.load_network_info = load
    app.backups.start_periodic_backups(0.05)
    await asyncio.sleep(0.3)
    app.backups.stop_periodic_backups()
    assert len(n) >= 3, n
asyncio.run(main())
"""
