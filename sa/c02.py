"""C02: lockdown forbids creating, removing, renaming, linking and mode changes."""
import c01
def run(c):
    c01.run(c, kinds=('L', 'OC', 'SC'), lockdown=True, floor=25)
