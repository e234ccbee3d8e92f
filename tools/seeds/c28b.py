ID = "c28-restart-at-one"
PROPERTY = "C28"
NEEDS = "a raw source that had counted exactly one and is next polled after a restart at zero"
BREAKS = "the restart is not noticed, so the total decreases"
EDITS = [("zigpy/state.py", """        if diff < 0:  # Roll over or reset
            self.reset_and_update(new_value)
            return

        self._raw_value = new_value
""", """        if diff < 0 and (new_value or self._raw_value > 1):  # Roll over or reset
            self.reset_and_update(new_value)
            return

        self._raw_value = new_value
""")]
DEMO = """
from zigpy.state import Counter
c = Counter("x")
for v in (1, 0, 3):
    c.update(v)
assert c.value == 4, c.value
"""
