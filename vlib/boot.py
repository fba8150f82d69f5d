"""Makes `import sidetopics...` use /repo's Python sources and the freshly built extensions."""
import importlib.machinery
import importlib.util
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class FreshExtensions:
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install(table):
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.meta_path.insert(0, FreshExtensions(table))
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import sidetopics
    assert os.path.realpath(sidetopics.__file__).startswith(os.path.realpath(REPO) + "/"), sidetopics.__file__
    import sidetopics.util.se_fast as m
    assert m.__file__ == table["sidetopics.util.se_fast"], m.__file__
