"""
Stand-in for the external package fixif.FxP (not in this repository, not installed here): only the fixed-point format (FPF)
and the Constant classes, with the documented contract of the parts used by the repository under test.
"""
from fixif.FxP.FPF import FPF
from fixif.FxP.Constant import Constant
