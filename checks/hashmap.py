#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from seq import *


def body():
    c = Check("C12")
    t = c.thorough
    run_all(c, [
        dict(name="hashmap", source="hashmap.cxy", natives=["hashmap.c"], split=2,
             params={"VX_DEPTH!": 4 if t else 3, "VX_KEYS!": 7 if t else 6, "VX_NOREPLACE!": 1}),
        dict(name="hashset", source="hashset.cxy", natives=["hashmap.c"], split=2,
             params={"VX_DEPTH!": 4 if t else 3, "VX_KEYS!": 7 if t else 6, "VX_NOREPLACE!": 1}),
        dict(name="hashmap_long", source="hashmap.cxy", natives=["hashmap.c"], split=2,
             params={"VX_DEPTH!": 6 if t else 5, "VX_KEYS!": 4, "VX_NOREPLACE!": 0}),
        dict(name="hashstr", source="hashstr.cxy", natives=["hashmap.c"], split=2,
             params={"VX_DEPTH!": 4 if t else 3, "VX_KEYS!": 6}),
        dict(name="hashbig", source="hashbig.cxy", natives=["hashbig.c"], split=1,
             params={"VX_MAXN!": 1300 if t else 330}),
    ])
    c.finish()


main(body)
