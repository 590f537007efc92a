#!/bin/sh
# show differing output terms of one program
cd /verif; DBG=1 python3-vt tools/dbg.py $1 $2 > /tmp/o_$2.txt 2>&1; python3 - $2 <<'P'
import re,sys
t=open('/tmp/o_%s.txt'%sys.argv[1]).read()
t=re.sub(r'(\(\(_ extract 31 31\) in_x\d\)\s*)+','SS ',t); t=re.sub(r'(Extract\(\d+,\s+\d+,\s+in_x1\),?\s*){5,}','SS,',t); t=re.sub(r'\s+',' ',t)
print(t[:900]);print('-----')
for x in t.split('DIFF')[1:3]: print('DIFF',x[:2500])
print(t[-800:])
P
