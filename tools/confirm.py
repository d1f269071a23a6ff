"""Record /repo's current definitions as the confirmed ones (run by hand, after
reading every change; never run by a check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import confirmed
from vlib.load import Project
confirmed.save(Project())
