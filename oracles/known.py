"""Recorded findings, reproduced on the real code.  Each returns a description while the
defect is present, else None.  The findings themselves are in /verif/known_findings.json."""

import json
import os

import numpy

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
FINDINGS = json.load(open(FILE))["findings"]


def polyphase_chunks():
    """PolyphaseRateFilter(0.3) over ten chunks of four samples of a ramp."""
    from diamondback import PolyphaseRateFilter

    x = numpy.arange(400.0)
    f, g = PolyphaseRateFilter(0.3), PolyphaseRateFilter(0.3)
    y = numpy.concatenate([f.filter(x[i : i + 4]) for i in range(0, 400, 4)])
    z = g.filter(x)
    if len(y) == len(z) and numpy.allclose(y, z):
        return None
    return f"chunks of 4 samples at rate 0.3 give {len(y)} outputs ending {y[-1]:.3f}, the whole signal {len(z)} ending {z[-1]:.3f}"


RUN = {"polyphase_chunks": polyphase_chunks}
