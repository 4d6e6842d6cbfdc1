"""PicoBlaze KCPSM6; conventions and don't-cares in isa_kcpsm."""
import isa_kcpsm
CPU = isa_kcpsm.cpu("PicoBlaze KCPSM6", 1)
def runs(): return isa_kcpsm.table(1)
