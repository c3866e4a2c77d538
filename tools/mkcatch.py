#!/usr/bin/env python3
# Prints the table of planted bugs for DESIGN.md.
import json,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
print('| bug | check that reports it | what it breaks | needs |\n|---|---|---|---|')
for n in sorted(os.listdir(d)):
    m=json.load(open(os.path.join(d,n,'meta.json')))
    print('| %s | %s | %s | %s |'%(n,m.get('caught_by',m['property']),m['what_it_breaks'],m['needs']))
