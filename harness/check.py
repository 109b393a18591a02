#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    import tlc
    try:
        import registry
        fn = registry.CHECKS.get(prop)
        if fn is None:
            sys.stderr.write(f'no check for {prop}\n')
            sys.exit(2)
        fn()
    except tlc.MachineryError as e:
        sys.stderr.write(f'machinery error: {e}\n')
        sys.exit(2)


if __name__ == '__main__':
    main()
