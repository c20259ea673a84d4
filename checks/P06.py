"""P06: prefix cache (full attention mode); see radix_h.py."""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import radix_h
from vf.core import Check

c = Check("P06", rule="every sequence of insert/match/lock/unlock/evict/reset actions up to the stated depth over the listed keys; states "
          "with equal cache content, recency order, locks and reference are merged",
          assumptions=["a node handle is locked right after the lookup that returned it", "time.monotonic is a strictly increasing counter"])
c.run(radix_h.jobs("P06", c.thorough))
c.finish()
