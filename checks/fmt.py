#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from seq import *


def body():
    c = Check("C15")
    run_all(c, [dict(name="fmt", source="fmt.cxy", natives=["fmt.c"], split=1,
                     params={"VX_DEPTH!": 6 if c.thorough else 5})])
    c.finish()


main(body)
