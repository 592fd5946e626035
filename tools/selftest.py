#!/opt/venv/bin/python
"""setup: makes sure that the sources of /repo can be translated and loaded and that the solver works."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import loader
loader.install()
import z3
import jpt.base.intervals
import jpt.base.functions
print('z3', z3.get_version_string(), 'jpt from', jpt.base.intervals.__file__)
