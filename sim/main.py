import importlib
import sys


def main():
    if len(sys.argv) < 2:
        print("usage: python -m sim.main <property> [options]")
        return 2
    try:
        check = importlib.import_module("sim.checks." + sys.argv[1].lower())
        from sim import core

        return core.main(check, sys.argv[2:])
    except SystemExit as e:
        return int(e.code or 0)
    except BaseException:
        import traceback

        traceback.print_exc()
        print("HARNESS ERROR: the check could not run")
        return 2


if __name__ == "__main__":
    sys.stdout.flush()
    sys.exit(main())
