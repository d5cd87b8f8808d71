import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog
print(prog.build_tool())
