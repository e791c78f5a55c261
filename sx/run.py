import importlib
import sys


def main():
    prop = sys.argv[1]
    from sx import harness, tfexec
    tfexec.install(harness.tf)
    mod = importlib.import_module('checks.' + prop.lower())
    sys.stdout.flush()
    code = harness.main(mod, sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    import os
    os._exit(code)


main()
