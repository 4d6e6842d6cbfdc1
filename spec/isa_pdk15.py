"""Padauk PDK15; conventions and don't-cares in isa_pdk."""
import isa_pdk
CPU = isa_pdk.cpu(15)
def runs(): return isa_pdk.table(15)
