#!/usr/bin/env python3
"""dev helper: mark property as built with a level note"""
import sys
s = open('props_data.py').read()
id, note = sys.argv[1:3]
i = s.index("prop('%s'" % id); j = s.find("\nprop('", i); j = len(s) if j < 0 else j
blk = s[i:j]; assert "'see DESIGN.md', False)" in blk
open('props_data.py', 'w').write(s[:i] + blk.replace("'see DESIGN.md', False)", repr(note) + ")") + s[j:])
