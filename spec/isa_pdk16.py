"""Padauk PDK16; conventions and don't-cares in isa_pdk."""
import isa_pdk
CPU = isa_pdk.cpu(16)
def runs(): return isa_pdk.table(16)
