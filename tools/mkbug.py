#!/usr/bin/env python3
"""mkbug.py spec.py : spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (cpp), optional LIBS"""
import sys,os,subprocess,json
ns={}
exec(open(sys.argv[1]).read(),ns)
d='/verif/seeded/'+ns['ID']; os.makedirs(d,exist_ok=True)
subprocess.run(['git','-C','/repo','diff','--quiet'],check=True)
try:
    for f,o,n in ns['EDITS']:
        p='/repo/'+f; s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        assert s.count(o)==1,(f,s.count(o),o)
        open(p,'w',newline='').write(s.replace(o,n))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
    open(d+'/patch.diff','wb').write(diff)
finally:
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
open(d+'/demo.cpp','w').write(ns['DEMO'])
libs=ns.get('LIBS','-lnlopt -ltbb -lpthread')
open(d+'/demo.sh','w').write('''#!/bin/bash
# cwd: /repo. Compiles demo.cpp (beside this file) against the sources here; exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
clang++-18 -std=gnu++20 -O1 -w -DNLOPT_DLL -DRAPIDJSON_HAS_CXX11_RVALUE_REFS -I. -Iinc -isystem /usr/include/eigen3 -isystem /usr/include/opencascade "$d/demo.cpp" -o "$t/demo" %s && (cd "$t" && timeout 200 ./demo); rc=$?
rm -rf "$t"
exit $rc
'''%libs)
json.dump(dict(property=ns['PROP'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(d+'/meta.json','w'),indent=1)
print(ns['ID'],len(diff))
