"""Builds the front end and parses the current tree once (both are rebuilt by the checks when absent)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
from front import *          # noqa

build_tool()
ALT = {'N': '3', 'DESTRESS': 'true', 'NO_CORNERS': 'false', 'PRIM_RECONSTRUCT': 'true', 'ROTATE_DISTORTION': 'true', 'RIEMANN_STICK': 'true',
       'RIEMANN_RELAXATION': 'false'}
for o in ({"N": "3"}, {"N": "4"}, {}, {"THERMAL": "true"}, {"MULTI": "true"}, {"VISCOUS": "false"}, ALT):
    Program(o)
print('front end ready')
