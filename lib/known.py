# known_findings.txt: "KNOWN property=<id> case=<sha256 prefix of the replayed case> <what fails>" and
# "fixed: property=<id> <commit> <what failed>"
import os, hashlib
from common import VERIF


def match(pid, bad):
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return None
    h = hashlib.sha256(bad['case'].encode()).hexdigest()[:16]
    for l in open(p):
        f = l.split()
        if len(f) > 2 and f[0] == 'KNOWN' and f[1] == 'property=' + pid and f[2] == 'case=' + h:
            return ' '.join(f[3:])
    return None
