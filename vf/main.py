import sys, importlib
sys.path.insert(0, __file__.rsplit("/vf/", 1)[0])
from vf.check import Check
import traceback


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module("checks." + prop.lower())
        c = Check(prop)
        mod.main(c)
        c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
