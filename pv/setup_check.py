"""Offline setup: compile the extension modules into .build and import."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import env
env.setup()
import hypothesis
import pystruct.inference
from pystruct.models import utils
print("ok: pystruct from %s, hypothesis %s" % (env.REPO,
                                               hypothesis.__version__))
