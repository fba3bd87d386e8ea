# portion of the `fixif` namespace package: only stands in for sibling distributions (fixif.WCPG, fixif.FxP)
# that are not part of the repository under test and are not installed in the sandbox
__path__ = __import__('pkgutil').extend_path(__path__, __name__)
