"""Acceptance of the PicoBlaze (KCPSM3) interrupt; conventions in isa_kcpsm."""
import isa_kcpsm
CPU = isa_kcpsm.cpu("PicoBlaze KCPSM3 interrupt", 0, call="do_interrupt")
def runs(): return isa_kcpsm.interrupts(0)
