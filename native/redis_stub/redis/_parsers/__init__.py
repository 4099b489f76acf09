from . import helpers
