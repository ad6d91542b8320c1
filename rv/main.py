import sys
from . import core


def main():
    args = sys.argv[1:]
    if not args:
        print("usage: check Cxx [--replay FILE]")
        return 3
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    return core.run(args[0], replay)


if __name__ == "__main__":
    sys.exit(main())
