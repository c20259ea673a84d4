"""P03: real scheduler + model-runner process + prefix cache + pools; see serve_h.py."""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import serve_h
from vf.core import Check

c = Check("P03", rule="per configuration (prefix cache on/off/paged/windowed/hybrid, pool size, limits) every order of submitting and aborting the "
          "listed requests relative to the event-loop iterations, up to the stated number of actions, each followed by running to idle; "
          "states equal up to node numbering and clock rank are merged",
          assumptions=["the neural model is replaced by one whose keys/values name the context they were computed from",
                       "torch tensors live on the CPU", "transport between processes delivers in order"])
c.run(serve_h.jobs("P03", c.thorough))
c.finish()
