#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

FAMILY = {}
for fam, ids in {'checks_react': ['R01', 'R02', 'R03', 'R04', 'R05'], 'checks_net': ['R06', 'F01', 'F02', 'F03', 'F04', 'F05', 'F06', 'F07', 'D07', 'B01', 'B02'], 'checks_ssr': ['S01', 'S02', 'S03', 'S04', 'S05', 'S06'], 'checks_cli': ['W01', 'W02'], 'checks_page': ['D01', 'D02', 'D03', 'D04', 'D05', 'D06', 'D08', 'D09', 'D10']}.items():
    for i in ids:
        FAMILY[i] = fam


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(FAMILY[prop])
        sys.exit(mod.check(prop))
    except SystemExit:
        raise
    except vlib.Hang as e:
        # nothing of the kind happens on code where the property holds: every replay takes seconds
        print('VIOLATION property=%s replay=%s' % (prop, 'none: ' + str(e)))
        sys.exit(1)
    except vlib.ToolError as e:
        print('TOOL-ERROR', prop, str(e)[:3000], file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == '__main__':
    main()
