#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json
import os
import sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | caught by | what it breaks | needs |')
print('|---|---|---|---|')
for d in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, d, 'meta.json')))
    print('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
