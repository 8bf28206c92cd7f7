# the translator against the native compiler on generated C: one.sh SEED (e.g. seq 500 | xargs -P 8 -n1 bash one.sh)
s=$1; h=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); cd $d; python3 $h/gen.py $s main.c > f.c
# results are compared as their types
python3 - <<'P'
import re
f=open("f.c").read(); m=open("main.c").read()
for t,n in re.findall(r"^(u?int\d+_t) f(\d+)\(",f,re.M): m=m.replace("(r RT%s)"%n,"(%s)r"%t)
# arguments: narrow to the parameter types (callers extend on x86, callees on aarch64)
sig={n:[x.split()[0] for x in a.split(",")] for n,a in re.findall(r"^u?int\d+_t f(\d+)\((.*?)\)",f,re.M)}
rt={n:t for t,n in re.findall(r"^(u?int\d+_t) f(\d+)\(",f,re.M)}
m=re.sub(r"^uint64_t f(\d+)\(.*\);",lambda k:"%s f%s(%s);"%(rt[k[1]],k[1],", ".join(sig[k[1]])),m,flags=re.M)
m=re.sub(r"(\d+) \((u?int\d+_t)\)r\)",r"\1 (\2)r)",m)
open("main.c","w").write(m)
P
for o in -O1 -O2; do [ $o = -O2 ] && [ -z "$A64_TRY_O2" ] && continue
A64_OPT=$o $h/../cc -fwrapv -c f.c -o fa$o.o > log 2>&1 || { echo "$s $o: $(tail -1 log | cut -c1-200)"; continue; }
clang-18 -fwrapv -w -O0 -c f.c -o fn.o && gcc -w -O1 -c main.c -o m.o && gcc m.o fa$o.o -o ta && gcc m.o fn.o -o tn && { ./ta > oa; ./tn > on; cmp oa on > c.log && echo "$s $o ok" || { echo "$s DIFF $(cat c.log)"; exit; }; }
done
rm -rf $d
