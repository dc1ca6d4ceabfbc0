#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from seq import *


def body():
    c = Check("C13")
    t = c.thorough
    run_all(c, [
        dict(name="strview", source="strview.cxy", natives=["strview.c"], split=2,
             params={"VX_A!": 7 if t else 5, "VX_B!": 3, "VX_N!": 6 if t else 5}),
        dict(name="string", source="string.cxy", natives=["string.c"], split=2,
             params={"VX_DEPTH!": 6 if t else 5}),
        dict(name="string_arg", source="string_arg.cxy", natives=[], split=0),
    ])
    c.finish()


main(body)
