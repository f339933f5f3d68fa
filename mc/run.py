"""python -m mc.run C01 [--tier quick|thorough] [--replay FILE]"""
import importlib
import sys
import traceback


def main():
    sys.dont_write_bytecode = True
    prop = sys.argv[1]
    from . import core
    try:
        # only the package itself can make this fail on a sound checkout
        core.import_freesif()
    except BaseException:
        traceback.print_exc()
        print('the package cannot be imported')
        return 2
    check = importlib.import_module('mc.' + prop.lower())
    return core.main(check, sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
