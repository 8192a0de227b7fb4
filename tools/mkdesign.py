#!/usr/bin/env python3
"""Refreshes the table of planted changes in DESIGN.md."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.run(['python3', V + '/tools/seedtable.py'], capture_output=True, text=True, check=True).stdout
p = V + '/DESIGN.md'
s = open(p).read()
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@', '<!-- seeds -->\n<!-- /seeds -->')
s = re.sub(r'<!-- seeds -->\n.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + t + '<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
