#!/usr/bin/env python3
"""edit.py FILE: replaces exactly one occurrence; OLD and NEW from stdin separated by a line '====', keeps line endings."""
import sys, re
p = sys.argv[1]; s = open(p, newline='', encoding='latin-1').read()
old, new = sys.stdin.read().split('\n====\n'); new = new.rstrip('\n'); old = old.rstrip('\n')
pat = r'\r?\n'.join(re.escape(l) for l in old.split('\n'))
ms = list(re.finditer(pat, s)); assert len(ms) == 1, (p, len(ms))
m = ms[0]; nl = '\r\n' if '\r\n' in (m.group(0) if '\n' in old else s) else '\n'
open(p, 'w', newline='', encoding='latin-1').write(s[:m.start()] + new.replace('\n', nl) + s[m.end():])
