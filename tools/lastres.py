import json,sys
t=open(sys.argv[1]).read()
i=t.find('@@RESULT ')
if i<0: print('NO RESULT',t[-300:]); sys.exit()
d=json.JSONDecoder().raw_decode(t[i+9:])[0]
for k in ('errors','violations','unreproduced','undecided','trace_mismatch'):
    if d[k]: print(k, len(d[k]), str(d[k][0])[:400], end=' ')
