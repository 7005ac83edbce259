# flake8: noqa
from ._version import __version__

from .metadetect import (
    do_metadetect,
    Metadetect,
)
from . import detect
from . import metadetect
from . import fitting

from . import util
from . import defaults
from . import procflags
from . import shearpos
