"""Acceptance of the PicoBlaze (KCPSM6) interrupt; conventions in isa_kcpsm."""
import isa_kcpsm
CPU = isa_kcpsm.cpu("PicoBlaze KCPSM6 interrupt", 1, call="do_interrupt")
def runs(): return isa_kcpsm.interrupts(1)
