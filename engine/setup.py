"""Builds the IR extractor into /verif/build (also built on demand by a check)."""
import vf
print(vf.ensure_irdump())
