import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
core.main(sys.argv[1:])
