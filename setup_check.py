"""Nothing to build: /repo is imported from its working tree. Checks that what the simulator needs is there."""
import os
import sys
import numpy, scipy, meshpy  # noqa
root = os.path.dirname(os.path.abspath(__file__))
assert os.path.isdir('/repo/msehtt'), 'no /repo'
os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(root, 'replays'), exist_ok=True)
print('ready', sys.version.split()[0], numpy.__version__, scipy.__version__)
