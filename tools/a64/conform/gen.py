import random,sys
R=random.Random(int(sys.argv[1]))
T=["uint8_t","int8_t","uint16_t","int16_t","uint32_t","int32_t","uint64_t","int64_t"]
def expr(d,vs):
    if d==0 or R.random()<.08:
        r=R.random()
        if r<.7: return R.choice(vs)
        if r<.85: return "(%s)%d"%(R.choice(T),R.choice([0,1,2,3,7,8,15,16,31,32,63,64,127,128,255,256,65535,-1,-2,-128,0x7fffffff,0x55555555,0x12345678,R.randrange(1<<32),R.randrange(1<<62)]))
        return "%sll"%R.choice([R.randrange(1<<62),1<<R.randrange(62),(1<<R.randrange(62))-1])
    k=R.randrange(24); a=lambda:expr(d-1,vs)
    if k<3: return "(%s + %s)"%(a(),a())
    if k<5: return "(%s - %s)"%(a(),a())
    if k<7: return "(%s * %s)"%(a(),a())
    if k<9: return "(%s %s %s)"%(a(),R.choice("&|^"),a())
    if k==9: return "((%s)%s %s %d)"%(R.choice(["uint32_t","int32_t"]),a(),R.choice(["<<",">>"]),R.randrange(32))
    if k==10: return "((%s)%s %s %d)"%(R.choice(["uint64_t","int64_t"]),a(),R.choice(["<<",">>"]),R.randrange(64))
    if k==11: return "((%s)%s %s (%s & 31))"%(R.choice(["uint32_t","int32_t"]),a(),R.choice(["<<",">>"]),a())
    if k==12: return "((%s)%s %s (%s & 63))"%(R.choice(["uint64_t","int64_t"]),a(),R.choice(["<<",">>"]),a())
    if k==13: return "(%s ? %s : %s)"%(a(),a(),a())
    if k==14: return "(%s %s %s)"%(a(),R.choice(["<","<=",">",">=","==","!="]),a())
    if k==15: return "((%s)%s)"%(R.choice(T),a())
    if k==16: return "%s(%s)"%(R.choice(["~","-","!"]),a())
    if k==17: return R.choice(["__builtin_bswap32((uint32_t)%s)","__builtin_bswap64((uint64_t)%s)","__builtin_clz((uint32_t)%s | 1)","__builtin_clzll((uint64_t)%s | 1)","__builtin_ctzll((uint64_t)%s | 0x100)"])%a()
    if k==18:
        t=R.choice(["uint32_t","uint64_t","int32_t","int64_t"]); return "dv_%s((%s)%s, (%s)%s)"%(t,t,a(),t,a())
    if k==19:
        t=R.choice(["uint32_t","uint64_t","int32_t","int64_t"]); return "md_%s((%s)%s, (%s)%s)"%(t,t,a(),t,a())
    if k==20: return "(uint64_t)(((unsigned __int128)(uint64_t)%s * (uint64_t)%s) >> %d)"%(a(),a(),R.randrange(1,127))
    if k==21: n=R.randrange(1,32); v=a(); return "rot32(%s, %d)"%(v,n)
    if k==22: return R.choice(["mem[(%s) & 15]","m8[(%s) & 63]","m16[(%s) & 31]","ms[(%s) & 15]"])%a()
    return "((%s) && (%s) || (%s))"%(a(),a(),a())
def fn(i):
    n=R.randrange(1,11); ts=[R.choice(T) for _ in range(n)]
    vs=["a%d"%k for k in range(n)]
    s="%s f%d(%s) {\n"%(R.choice(T),i,", ".join("%s a%d"%(t,k) for k,t in enumerate(ts)))
    for k in range(R.randrange(1,4)):
        s+=" %s v%d = %s;\n"%(R.choice(T),k,expr(3,vs)); vs.append("v%d"%k)
    r=R.random()
    if r<.4: s+=" for (int i = 0; i < %d; i++) { %s %s %s; if (%s) break; %s %s %s; }\n"%(R.randrange(1,20),vs[-1],R.choice(["+=","^=","-=","*="]),expr(3,vs+["i"]),expr(2,vs),R.choice(vs),R.choice(["+=","|=","="]),expr(2,vs+["i"]))
    elif r<.6: s+=" switch (%s & 7) { case 0: %s += 3; case 1: %s ^= %s; break; case 5: %s = %s; break; default: %s--; }\n"%(expr(2,vs),vs[-1],vs[-1],expr(2,vs),vs[0],expr(2,vs),vs[-1])
    elif r<.8: s+=" for (int i = 0; i < 16; i++) { mem[i] %s %s; m8[(i * 3 + %d) & 63] = (uint8_t)(%s); ms[i] += (int16_t)%s; }\n"%(R.choice(["+=","^=","="]),expr(2,vs+["i"]),R.randrange(64),expr(2,vs+["i"]),expr(1,vs+["i"]))
    if i and R.random()<.3: s+=" %s ^= f%d(%s);\n"%(vs[-1],i-1,", ".join(expr(1,vs) for _ in range(PREV)))
    s+=" return %s;\n}\n"%expr(4,vs)
    return s,n
print('#include <stdint.h>\nextern uint64_t mem[16]; extern uint8_t m8[64]; extern uint16_t m16[32]; extern int16_t ms[16];')
for t in ["uint32_t","uint64_t","int32_t","int64_t"]:
    g=" || (b == (%s)-1)"%t if t[0]=='i' else ""
    print("static inline %s dv_%s(%s a, %s b) { return b == 0%s ? 77 : a / b; } static inline %s md_%s(%s a, %s b) { return b == 0%s ? 78 : a %% b; }"%(t,t,t,t,g,t,t,t,t,g))
print("static inline uint32_t rot32(uint32_t a, int n) { return a << n | a >> (32 - n); }")
N=60; PREV=0; ns=[]
for i in range(N):
    s,PREV=fn(i); ns.append(PREV); print(s)
if len(sys.argv)>2:
    with open(sys.argv[2],"w") as f:
        f.write('#include <stdint.h>\n#include <stdio.h>\nuint64_t mem[16]; uint8_t m8[64]; uint16_t m16[32]; int16_t ms[16];\nstatic uint64_t st=88172645463325252ull; static uint64_t rn(void){st^=st<<13;st^=st>>7;st^=st<<17; switch(st>>60){case 0:return st&0xff;case 1:return 0;case 2:return ~0ull;case 3:return 1ull<<(st&63);case 4:return (1ull<<(st&63))-1;case 5: return st&0xffffffff;case 6:return (uint64_t)(int32_t)st; default:return st;}}\n')
        for i,n in enumerate(ns): f.write("uint64_t f%d(%s);\n"%(i,", ".join(["uint64_t"]*n)))
        f.write("int main(void){ for(int k=0;k<400;k++){ uint64_t r,h=0;\n")
        f.write("for(int i=0;i<16;i++){mem[i]=rn();ms[i]=rn();} for(int i=0;i<64;i++)m8[i]=rn(); for(int i=0;i<32;i++)m16[i]=rn();\n")
        for i,n in enumerate(ns):
            f.write("{ r=f%d(%s); printf(\"%d %%llx\\n\",(unsigned long long)(r RT%d)); for(int i=0;i<16;i++){h=h*31+mem[i]+ms[i];} printf(\"%%llx\\n\",(unsigned long long)h);}\n"%(i,", ".join(["rn()"]*n),i,i))
        f.write("} return 0;}\n")
