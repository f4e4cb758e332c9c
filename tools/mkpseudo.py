#!/usr/bin/env python3
# Writes sim/scen/pseudo.h: composites that pass a strong probable prime test for their first `b` prime bases.
import random
rnd=random.Random(20261118)
PR=[p for p in range(2,400) if all(p%q for q in range(2,int(p**.5)+1))]
def sprp(n,a):
    d,s=n-1,0
    while d%2==0: d//=2; s+=1
    x=pow(a,d,n)
    if x in(1,n-1): return True
    for _ in range(s-1):
        x=x*x%n
        if x==n-1: return True
    return False
def prime(n):
    if n<2: return False
    for p in PR:
        if n%p==0: return n==p
    return all(sprp(n,a) for a in PR[:20])
def first(n):
    k=0
    for a in PR:
        if n%a==0 or not sprp(n,a): break
        k+=1
    return k
out=[]
known=[3215031751,2152302898747,3474749660383,341550071728321,3825123056546413051,318665857834031151167461,3317044064679887385961981]
p1=29674495668685510550154174642905332730771991799853043350995075531276838753171770199594238596428121188033664754218345562493168782883
arn=p1*(313*(p1-1)+1)*(353*(p1-1)+1)
for n in known+[arn]:
    k=first(n); assert k>=1 and not prime(n) or n==arn,(n,k)
    out.append((n,k))
print('arnault passes',first(arn))
for bits in (32,64,96,128,256,512):
    got={}; tries=0; want=14 if bits<=128 else 9 if bits==256 else 5
    lim=6000000 if bits<=128 else 1500000 if bits==256 else 600000
    hb=bits//2
    while tries<lim:
        tries+=1
        m=rnd.randrange(2,8)
        lo=int((2**(bits-1)/m)**.5)+1; hi=int((2**bits/m)**.5)-1
        p=rnd.randrange(lo,hi)|1
        q=m*(p-1)+1
        n=p*q
        if n.bit_length()!=bits or any((p%s==0 and p!=s) or (q%s==0 and q!=s) for s in PR[:40]): continue
        if pow(2,p-1,p)!=1 or pow(2,q-1,q)!=1 or not sprp(n,2): continue
        k=first(n)
        if got.setdefault(k,0)<3: got[k]+=1; out.append((n,k))
    print(bits,sorted(got.items()))
    # Carmichael (6k+1)(12k+1)(18k+1)
    c=0
    for _ in range(200000):
        k=rnd.randrange(int((2**(bits-1)/1296)**(1/3)),int((2**bits/1296)**(1/3))+1)
        f=[6*k+1,12*k+1,18*k+1]; n=f[0]*f[1]*f[2]
        if n.bit_length()==bits and all(prime(x) for x in f):
            out.append((n,0)); c+=1
            if c==3: break
# Products p1*p2*p3 with p2-1 and p3-1 multiples of p1-1, built so that they pass for all of the first `count` prime bases (Arnault)
PRB=[p for p in range(2,1200) if all(p%q for q in range(2,int(p**.5)+1))]
def passes(n):
    k=0
    for a in PRB:
        if not sprp(n,a): break
        k+=1
    return k
def jac(a,n): # n odd prime: euler
    x=pow(a%n,(n-1)//2,n); return -1 if x==n-1 else x
def search(arg):
    bits,count,seed=arg; rnd=random.Random(seed)
    base=PRB[1:count]
    while True:
        k2,k3=rnd.sample([x for x in PRB if x%4==1 and x>PRB[count-1]][:12] or [313,353],2)
        # base p1 bits
        tot=[(4,None)]
        lo=int(round((2**(bits-1)/1)**(1/3))) if bits<900 else None
        # exact cube bounds with ints
        def icbrt(v):
            x=1<<((v.bit_length()+2)//3)
            while True:
                y=(2*x+v//(x*x))//3
                if y>=x: return x
                x=y
        L=icbrt((1<<(bits-1))//(k2*k3))+1; H=icbrt((1<<bits)//(k2*k3))-1
        M=8; r=3
        ok=True
        def crt(r,M,s,m):
            return r+M*((s-r)*pow(M,-1,m)%m), M*m
        for a,s in ((k2,-pow(k3,-1,k2)%k2),(k3,-pow(k2,-1,k3)%k3)): r,M=crt(r,M,s,a)
        for a in base:
            if a in(k2,k3): continue
            c=[s for s in range(1,a) if (k2*(s-1)+1)%a and (k3*(s-1)+1)%a and jac(s,a)==jac(k2*(s-1)+1,a)==jac(k3*(s-1)+1,a)]
            r,M=crt(r,M,rnd.choice(c),a)
        if M>(H-L)//4000: return ('M too large',M.bit_length(),H.bit_length())
        for _ in range(3000):
            p1=L+rnd.randrange(H-L); p1=p1-p1%M+r
            p2=k2*(p1-1)+1
            p3=k3*(p1-1)+1
            bad=False
            for q in PRB[count:]:
                if p1%q==0 or p2%q==0 or p3%q==0: bad=True;break
            if bad or pow(2,p1-1,p1)!=1 or pow(2,p2-1,p2)!=1 or pow(2,p3-1,p3)!=1: continue
            n=p1*p2*p3
            if n.bit_length()!=bits: continue
            k=passes(n)
            return (bits,k,n)
built=[search((b,c,b*1000+c)) for b,c in ((160,7),(256,11),(256,12),(512,21),(512,22),(1024,40),(1024,42),(2048,75),(2048,82))]
with open('sim/scen/pseudo.h','w') as f:
    f.write('// generated by tools/mkpseudo.py\nstatic const char* PSEUDO[] = {\n')
    for n,k in out: f.write('  "%x", // passes the first %d prime bases\n'%(n,k))
    for b,k,n in sorted(built): f.write('  "%x", // %d bits, passes the first %d prime bases (Arnault\'s construction)\n'%(n,b,k))
    f.write('};\n')
print(len(out))
