"""PicoBlaze for Spartan-3 (KCPSM3, UG129); conventions and don't-cares in isa_kcpsm."""
import isa_kcpsm
CPU = isa_kcpsm.cpu("PicoBlaze KCPSM3", 0)
def runs(): return isa_kcpsm.table(0)
