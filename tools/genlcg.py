#!/usr/bin/env python3
"""Writes harness/lcg_params.inc: congruential parameter sets of every kind (fixed seed; run by hand, the result is committed)."""
import random, math, os
R = random.Random(20240611)
def isprime(n):
    if n < 2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n % p == 0: return n == p
    d, s = n-1, 0
    while d % 2 == 0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x = pow(a,d,n)
        if x in (1,n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True
def prevprime(n):
    while not isprime(n): n -= 1
    return n
types = {"u16":(16,0),"i16":(15,1),"u32":(32,0),"i32":(31,1),"u64":(64,0),"i64":(63,1)}
def lit(v,t):
    return {"u64":"%dull","i64":"%dll","u32":"%du","i32":"%d","u16":"%d","i16":"%d"}[t] % v
lcg, icg = [], []
for t,(w,sg) in types.items():
    top = (1<<w)-1
    ms = [prevprime(top), prevprime(top//2), prevprime(top//3*2), prevprime(1<<(w//2+1)), top, top-1, top-2, (1<<(w-1)), (1<<(w-1))-1, (1<<(w-1))+1, (1<<(w-2))*3 if not sg or True else 0, R.randrange(1<<(w-1),top), R.randrange(2,top), R.randrange(2,1<<(w//2)), 1<<(w//2), (1<<(w//2))-1, prevprime(R.randrange(1<<(w//2),top)), 2, 3, 1<<w if not sg else 6]
    if w == 64: ms += [(1<<32)+1, (1<<32), (1<<32)-1, 1<<48, (1<<61)-1, 10**19, (1<<63)+25, R.randrange(1<<63,1<<64), R.randrange(1<<63,1<<64), R.randrange(1<<33,1<<40), 1<<64]
    for m in ms:
        if m > (1<<w) or m < 2: continue
        if m > top and m != (1<<w): continue
        for rep in range(2 if w >= 31 else 1):
            kind = R.randrange(8)
            a = {0:R.randrange(m),1:m-1,2:1,3:max(1,math.isqrt(m)+R.randrange(-1,2)),4:R.randrange(1,max(2,min(m,50))),5:m-1-R.randrange(min(m-1,5)) if m>2 else 1,6:R.randrange(m//2,m),7:min(m-1,max(1,top//m+R.randrange(0,2)))}[kind] % m
            c = R.choice([0,0,1,m-1,R.randrange(m),R.randrange(m),m//2, max(0,top-a*0-m)%m])
            if c == 0 and (math.gcd(a,m) != 1):
                for _ in range(200):
                    a = R.randrange(1,m)
                    if math.gcd(a,m)==1: break
                else: continue
            mm = 0 if m == (1<<w) else m
            lcg.append((t,a,c,mm))
lcg += [("u32",0,7,11),("u32",16807,0,2147483647),("u32",48271,0,2147483647),("i32",16807,0,2147483647),("i32",40014,0,2147483563),("u64",0x5DEECE66D,0xB,1<<48),("u32",2147483646,5,2147483647),("u64",(1<<64)-2,(1<<64)-2,(1<<64)-1),("u64",(1<<63),(1<<63)-1,(1<<63)+1),("i64",(1<<62),(1<<62)+5,(1<<63)-1)]
lcg = sorted(set(lcg), key=lambda z:(list(types).index(z[0]),z[3],z[1],z[2]))
for t,(w,sg) in types.items():
    top=(1<<w)-1
    ps=[3,5,7,11,251,257,prevprime(top),prevprime(top//2),prevprime(R.randrange(1<<(w-2),top)),prevprime(R.randrange(1000,1<<(w-1)))]
    for p in ps:
        if p>top: continue
        for _ in range(2 if p > 11 else 1):
            a=R.randrange(1,p); b=R.choice([R.randrange(1,p),R.randrange(1,p),p-1,1])
            icg.append((t,a,b,p))
        if p>100: icg.append((t,R.randrange(1,p),0,p))
icg=sorted(set(icg), key=lambda z:(list(types).index(z[0]),z[3],z[1],z[2]))
out=["// generated by tools/genlcg.py: LCG(n, type, a, c, m), ICG(n, type, a, b, p)"]
out+=["L(%d, %s, %s, %s, %s)"%(i,z[0],lit(z[1],z[0]),lit(z[2],z[0]),lit(z[3],z[0])) for i,z in enumerate(lcg)]
out+=["I(%d, %s, %s, %s, %s)"%(i,z[0],lit(z[1],z[0]),lit(z[2],z[0]),lit(z[3],z[0])) for i,z in enumerate(icg)]
lines=out[1:]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"harness","lcg_params.inc"),"w") as f:
    f.write(out[0]+"\n")
    for s in range(4):
        f.write("#if SHARD == %d\n"%s+"\n".join(l for k,l in enumerate(lines) if k%4==s)+"\n#endif\n")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"harness","lcg_counts.inc"),"w").write("static const unsigned long long NLCG = %d, NICG = %d;\n"%(len(lcg),len(icg)))
print(len(lcg),len(icg))
