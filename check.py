#!/usr/bin/env python3
"""python3 check.py C01 [quick|thorough]  -- see DESIGN.md"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from vh import Check, Broken, Hang

MODULES = {**{f'C{i:02}': 'parse' for i in (1, 2, 3, 4, 5, 6, 7, 8, 11, 12)}, 'C10': 'values', 'C09': 'lifecycle', 'C22': 'lifecycle', 'C17': 'files', 'C18': 'files', 'C19': 'help', 'C20': 'help', 'C25': 'help', 'C21': 'robust', 'C24': 'messages', **{c: 'version' for c in ('C13', 'C14', 'C15', 'C16', 'C23')}}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = Check(prop, tier, seed)
    try:
        mod = __import__(MODULES[prop])
        getattr(mod, 'check_' + prop, None or getattr(mod, 'check', None))(chk)
        rc = chk.finish()
    except Hang as e:
        for case, r in e.args[0]:
            chk.violation(f'the program does not end: {str(case)[:500]}', dict(case=case, observed=r))
        rc = chk.finish()
    except Broken as e:
        print(f'{prop}: the check could not be performed: {e}')
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get('KEEP'):
            chk.close()
    sys.exit(rc)


if __name__ == '__main__':
    main()
