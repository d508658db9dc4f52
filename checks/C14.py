import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import beammachine as bm


def check(c):
    drv = c.build_driver("beammachine")
    ex = dict(NB="1", MaxP="1", Ops='{"nd", "trackb", "store", "setcur", "shift", "mirror"}', Sim="FALSE", Depth="3", QMs="{<<-1,1>>}", Bases="{<<1,-2,3>>, <<-4,5,0>>}",
              Moms="{<<2,-2,2>>}", Times="{3}", Dts="{2}", EKicks="{<<1,2,-3>>}", BKicks="{<<0,0,0>>}", Drifts="{}", Accs="{<<1,-2,5>>}",
              Deltas="{<<-2,5,3>>}", Facs="{-1, 2}")
    if c.thorough:
        ex.update(Depth="4", Bases="{<<1,-2,3>>}", Facs="{-1}")
    bm.run(c, drv, ex, what="exhaustive shift and mirror histories")
    sim = dict(NB="2", MaxPt="6", Weight='"step"', Depth="14", Ops='{"nd", "copy", "trackb", "init", "setcur", "shift", "mirror", "clr"}')
    bm.run(c, drv, sim, sim=c.scale(700, 8000), depth=20, what="shift and mirror histories")
    img = dict(NB="1", MaxPt="7", Weight='"step"', Depth="14", Ops='{"nd", "trackb", "image"}')
    bm.run(c, drv, img, sim=c.scale(400, 6000), depth=20, what="charge and image charge")
    if c.extra["image_fields"] < 300:
        raise CheckError("vacuous: image fields %d" % c.extra["image_fields"])
    bm.require(c, "shift", "mirror", "step", "setup")


if __name__ == "__main__":
    sys.exit(main("C14", check))
