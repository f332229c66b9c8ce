"""Import of the code under test, always compiled from /repo's current sources (never from a cached .pyc)."""
import importlib.machinery
import os
import warnings

warnings.simplefilter('ignore')
_orig = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    if fullname == 'kinisi' or fullname.startswith('kinisi.'):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)
    return _orig(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _get_code

import kinisi  # noqa: E402
REPO = os.environ.get('KC_REPO', '/repo')
assert os.path.realpath(kinisi.__path__[0]) == os.path.realpath(os.path.join(REPO, 'kinisi')), kinisi.__path__
from kinisi import parser, diffusion, analyzer, analyze, arrhenius  # noqa: E402,F401
from kinisi.parser import Parser, ASEParser, PymatgenParser, MDAnalysisParser  # noqa: E402,F401
from kinisi.diffusion import Bootstrap, MSDBootstrap, MSTDBootstrap, MSCDBootstrap  # noqa: E402,F401
from kinisi.analyze import DiffusionAnalyzer, JumpDiffusionAnalyzer, ConductivityAnalyzer  # noqa: E402,F401

ANALYZERS = {'D': DiffusionAnalyzer, 'J': JumpDiffusionAnalyzer, 'S': ConductivityAnalyzer}
