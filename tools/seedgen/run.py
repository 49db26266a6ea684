import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib, importlib, glob
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/batch*.py")): importlib.import_module(os.path.basename(f)[:-3])
seedlib.main()
