import sys
sys.path[:0] = ["/verif/tools", "/verif/checks"]
from vlib import *


def gens(out):
    """Records printed by a TLA+ generator module."""
    r = []
    for ln in out.splitlines():
        if ln.startswith('"GEN '):
            r.append(json.loads(json.loads(ln)[4:]))
    r.sort(key=json.dumps)
    return r


def split(l, k):
    n = (len(l) + k - 1) // k
    return [l[i:i + n] for i in range(0, len(l), n)] if l else []
