import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import beammachine as bm


def check(c):
    drv = c.build_driver("beammachine")
    ex = dict(NB="1", MaxP="1", Ops='{"nd", "nb", "abeam", "trk", "dt", "track", "nots", "clr", "coord"}', Sim="FALSE", Depth="5", QMs="{<<-1,1>>}", Bases="{<<1,-2,3>>}",
              Moms="{<<2,-2,2>>}", Times="{3}", Dts="{2}", EKicks="{<<1,2,-3>>}", BKicks="{<<0,0,0>>}", Drifts="{}", QTimes="{4}",
              InitTrk='{"none", "vay"}', InitDts="{2}", MaxPt="3")
    if c.thorough:
        ex.update(Depth="6")
    bm.run(c, drv, ex, what="exhaustive life cycles")
    sim = dict(NB="2", MaxPt="7", Weight='"step"', Depth="16", InitTrk='{"none", "euler", "vay"}',
               Ops='{"nd", "abeam", "cbeam", "trk", "dt", "nots", "track", "trackb", "clr", "init", "store", "save", "coord"}')
    bm.run(c, drv, sim, sim=c.scale(500, 6000), depth=24, what="life cycles")
    sim2 = dict(NB="1", MaxPt="8", Weight='"step"', Depth="14", Ops='{"nd", "abeam", "track", "coord", "setcur"}')
    bm.run(c, drv, sim2, sim=c.scale(300, 4000), depth=24, what="coordinates at a time")
    bm.require(c, "setup/refused", "step/refused", "step", "setup", "coord")


if __name__ == "__main__":
    sys.exit(main("C16", check))
