import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import common
prop = sys.argv[1]
module = importlib.import_module("props." + prop.lower())
code = common.main(prop, module)
sys.stdout.flush()
os._exit(code)
