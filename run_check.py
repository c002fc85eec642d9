import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

if __name__ == '__main__':
    pid, tier = sys.argv[1:3]
    if tier == 'replay':
        sys.exit(core.main(pid, 'quick', replay=sys.argv[3]))
    os.environ['VERIF_TIER'] = tier
    sys.exit(core.main(pid, tier))
