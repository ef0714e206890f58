"""Maps each property to the function that decides it."""
import area_tp, area_dn, area_circ, area_math, area_ss, area_prim, area_net, area_chan, area_setup, area_cfg, area_msg, area_prog, area_steps
CHECKS, ABOUT, HARNESSES = {}, {}, []
for m in (area_tp, area_dn, area_circ, area_math, area_ss, area_prim, area_net, area_chan, area_setup, area_cfg, area_msg, area_prog, area_steps):
    CHECKS.update(m.CHECKS)
    ABOUT.update(m.ABOUT)
    HARNESSES += m.HARNESSES
