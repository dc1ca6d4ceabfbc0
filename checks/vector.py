#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from seq import *


def body():
    c = Check("C11")
    t = c.thorough
    run_all(c, [
        dict(name="vector_obj", source="vector_obj.cxy", natives=["vector_obj.c"], split=2,
             params={"VX_DEPTH!": 8 if t else 6, "VX_CAPS!": 4}),
        dict(name="vector_i32", source="vector_i32.cxy", natives=["vector_i32.c"], split=2,
             params={"VX_DEPTH!": 7 if t else 5, "VX_CAPS!": 4}),
    ])
    c.finish()


main(body)
