"""Build the front end (cached under build/)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import prog
print(prog.tool_path())
