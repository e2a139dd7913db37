#!/usr/bin/env python3
"""Writes /verif/fixtures/keys.json: key material (fixed seed) used by the harness as oracle keys."""
import json, os, random
R=random.Random(20240607)
CUR={
 'p256':dict(p=2**256-2**224+2**192+2**96-1,a=-3,n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
   g=(0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),l=32),
 'p384':dict(p=2**384-2**128-2**96+2**32-1,a=-3,n=0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
   g=(0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f),l=48),
 'p521':dict(p=2**521-1,a=-3,n=2**521-2**260+0xa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
   g=(0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650),l=66),
}
def add(c,P,Q):
    p=c['p']
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%p==0: return None
        m=(3*P[0]*P[0]+c['a'])*pow(2*P[1],-1,p)%p
    else: m=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)%p
    x=(m*m-P[0]-Q[0])%p
    return (x,(m*(P[0]-x)-P[1])%p)
def mul(c,k):
    r=None;q=c['g']
    while k:
        if k&1: r=add(c,r,q)
        q=add(c,q,q);k>>=1
    return r
for _c in CUR.values(): assert mul(_c,_c['n']) is None
out=dict(ec=[],rsa=[])
def ec(name,k):
    c=CUR[name];P=mul(c,k);l=c['l']
    out['ec'].append(dict(curve=name,d=k.to_bytes(l,'big').hex(),
      q='04'+P[0].to_bytes(l,'big').hex()+P[1].to_bytes(l,'big').hex()))
for name in ('p256','p384','p521'):
    n=CUR[name]['n'];l=CUR[name]['l']
    # ordinary, top bit clear / set, 1..4 leading zero bytes, tiny and extreme scalars
    ks=[R.randrange(1,n) for _ in range(8)]
    ks.append(R.randrange(2**(8*l-2) if name!='p521' else 2**519, n))
    ks.append(R.randrange(1,min(n,2**(8*l-2))))
    for z in (1,2,3,4): ks.append(R.randrange(2**(8*(l-z)-1),2**(8*(l-z))))
    for z in (1,2): ks.append(R.randrange(1,2**(8*(l-z)-1)))
    ks+= [1,2,255,256,n-1,n-2]
    for k in ks:
        assert 0<k<n
        ec(name,k)
def prime(bits):
    while True:
        p=R.getrandbits(bits)|1|(3<<(bits-2))
        if any(p%q==0 for q in (3,5,7,11,13,17,19,23,29,31,37)): continue
        if p%65537==1: continue
        d=p-1;s=0
        while d%2==0: d//=2;s+=1
        ok=True
        for _ in range(24):
            a=R.randrange(2,p-1);x=pow(a,d,p)
            if x in (1,p-1): continue
            for _ in range(s-1):
                x=x*x%p
                if x==p-1: break
            else: ok=False;break
        if ok: return p
def hx(v): 
    b=v.to_bytes((v.bit_length()+7)//8,'big'); return b.hex()
def rsa(bits):
    p=prime(bits//2);q=prime(bits//2)
    if p<q:p,q=q,p
    e=65537;d=pow(e,-1,(p-1)*(q-1))
    out['rsa'].append(dict(bits=bits,n=hx(p*q),e=hx(e),d=hx(d),p=hx(p),q=hx(q),i=hx(pow(q,-1,p))))
for b in (2048,2048,2048,3072,4096,1024): rsa(b)
d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'fixtures')
json.dump(out,open(os.path.join(d,'keys.json'),'w'),indent=0)
print({k:len(v) for k,v in out.items()})
