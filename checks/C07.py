import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import beammachine as bm


def check(c):
    drv = c.build_driver("beammachine")
    # bounded exhaustive: buffering, copying and restoring in every order
    ex = dict(NB="2", MaxP="2", Ops='{"nd", "copy", "ser", "serT", "cb", "abeam", "save", "clr"}', Sim="FALSE", Depth=c.scale("4", "5"),
              QMs="{<<-1,1>>}", Bases="{<<1,-2,3>>}", Times="{3}", Moms="{<<2,-2,2>>}", MaxPt="3")
    if c.thorough:
        ex["Ops"] = '{"nd", "copy", "ser", "serT", "abeam", "save", "clr"}'
    bm.run(c, drv, ex, what="exhaustive buffer histories")
    sim = dict(NB="3", MaxPt="6", Weight='"step"', Depth="18",
               Ops='{"nd", "cb", "del", "add", "addnew", "copy", "ser", "serT", "abeam", "cbeam", "track", "trackb", "save", "probe", "clr", "pre", "init", "setcur", "rep"}')
    bm.run(c, drv, sim, sim=c.scale(500, 6000), depth=24, what="buffer and copy histories")
    # the pattern of the program: the master beam is loaded from a buffer, its copies are tracked
    sim2 = dict(NB="3", MaxPt="6", Weight='"step"', Depth="16", Ops='{"nd", "copy", "serT", "abeam", "track", "trackb", "save", "probe", "clr", "pre"}')
    bm.run(c, drv, sim2, sim=c.scale(500, 6000), depth=24, what="gather histories")
    bm.require(c, "save", "load", "probe", "add", "cb", "clrall", "preall", "step")


if __name__ == "__main__":
    sys.exit(main("C07", check))
