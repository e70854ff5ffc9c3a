# finds primitive polynomials (search only; the specification verifies primitivity)
import itertools,sys
def isp(n): return n>1 and all(n%d for d in range(2,int(n**.5)+1))
def fac(n):
    s=set();d=2
    while d*d<=n:
        while n%d==0: s.add(d);n//=d
        d+=1
    if n>1:s.add(n)
    return s
def mulmod(a,b,c,p,n):
    r=[0]*(2*n-1)
    for i,x in enumerate(a):
        for j,y in enumerate(b): r[i+j]=(r[i+j]+x*y)%p
    for i in range(2*n-2,n-1,-1):
        t=r[i]
        if t:
            for j in range(n): r[i-n+j]=(r[i-n+j]-t*c[j])%p
    return r[:n]
def power(e,c,p,n):
    res=[1]+[0]*(n-1)
    base=[0,1]+[0]*(n-2) if n>1 else [(-c[0])%p]
    while e:
        if e&1: res=mulmod(res,base,c,p,n)
        base=mulmod(base,base,c,p,n); e>>=1
    return res
def prim(p,n):
    q=p**n; fs=fac(q-1); one=[1]+[0]*(n-1)
    for c in itertools.product(range(p),repeat=n):
        c=c[::-1]
        if c[0]==0: continue
        if power(q-1,c,p,n)==one and all(power((q-1)//f,c,p,n)!=one for f in fs): return c
L=[]
for p in range(3,1100):
    if not isp(p): continue
    for n in range(1,12):
        if p**n<=20000: L.append((p,n))
for p in (2003,4001,10007,10009,20011,30011,40009): L.append((p,1))
out=["------------------------------ MODULE PrimPolys ------------------------------",
"(* Coefficients c of primitive polynomials x^n + c[n] x^{n-1} + .. + c[1]    *)",
"(* over F_p. Found by search; Field verifies primitivity when it builds F.   *)",
"EXTENDS Integers",
"PrimPoly(p, n) ==","  CASE "]
first=True
body=[]
for p,n in L:
    c=prim(p,n)
    body.append("p = %d /\\ n = %d -> <<%s>>"%(p,n,", ".join(map(str,c))))
out.append("       "+"\n    [] ".join(body))
out.append("=============================================================================")
open("/verif/spec/PrimPolys.tla","w").write("\n".join(out)+"\n")
