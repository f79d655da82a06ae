#!/bin/bash
# development helper: run all harnesses of a property (or matching a name) and print one line each
# usage: quick.sh BIN PROP [name-regex] [budget]
for n in $(/verif/target/debug/$1 list | awk -v p=$2 '$1==p{print $2}' | grep -E "${3:-.}"); do
  s=$(date +%s.%N); timeout 900 /verif/target/debug/$1 one $2 $n -v --budget ${4:-60} > /tmp/q_$2_$n.log 2>&1; r=$?
  printf "%-22s rc=%s %.1fs " $n $r $(echo "$(date +%s.%N)-$s"|bc); python3 -c "
import re,sys
t=open(sys.argv[1]).read()
g=lambda k:(re.search(r'\"%s\":(\d+)'%k,t) or [0,0])[1]
print('paths',g('paths'),'checks',g('checks'),'nf',g('by_normal_form'),'conf',g('normal_form_confirmed_by_solver'),'/',g('normal_form_given_to_solver'),'dis',g('normal_form_solver_disagrees'),'solver',g('by_solver'),'q',g('queries'),'unk',g('unknown'),end=' ')" /tmp/q_$2_$n.log; python3 /verif/tools/lastres.py /tmp/q_$2_$n.log; echo
done
