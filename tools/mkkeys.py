#!/usr/bin/env python3
"""Generated mc/keys once: private keys in the form the library takes them, and the matching public
keys in DNSKEY wire form (RFC 3110, 2536, 6605, 8080), derived with openssl."""
import subprocess, re, os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mc','keys')
def sh(*a,inp=None): return subprocess.run(a,input=inp,stdout=subprocess.PIPE,stderr=subprocess.PIPE,check=True).stdout
def w(n,b): open(os.path.join(D,n),'wb').write(b)
def hexfield(t,name):
    m=re.search(name+r':\s*\n((?:\s+[0-9a-f:]+\n)+)',t)
    return bytes.fromhex(re.sub(r'[\s:]','',m.group(1)))
def pkcs8(pem): return sh('openssl','pkcs8','-topk8','-nocrypt','-outform','DER',inp=pem)
for bits in (1024,2048):
    pem=sh('openssl','genpkey','-algorithm','RSA','-pkeyopt','rsa_keygen_bits:%d'%bits)
    t=sh('openssl','rsa','-text','-noout',inp=pem).decode()
    n=hexfield(t,'modulus').lstrip(b'\0')
    w('rsa%d.key'%bits,pkcs8(pem)); w('rsa%d.pub'%bits,b'\x03\x01\x00\x01'+n)
par=sh('openssl','genpkey','-genparam','-algorithm','DSA','-pkeyopt','dsa_paramgen_bits:1024','-pkeyopt','dsa_paramgen_q_bits:160')
open('/tmp/dsa.par','wb').write(par)
pem=sh('openssl','genpkey','-paramfile','/tmp/dsa.par')
t=sh('openssl','dsa','-text','-noout',inp=pem).decode()
f=lambda x,n:hexfield(t,x).lstrip(b'\0').rjust(n,b'\0')
w('dsa.key',pkcs8(pem)); w('dsa.pub',b'\x08'+f('Q',20)+f('P',128)+f('G',128)+f('pub',128))
for c,nm in (('P-256','p256'),('P-384','p384')):
    pem=sh('openssl','genpkey','-algorithm','EC','-pkeyopt','ec_paramgen_curve:'+c)
    der=pkcs8(pem); t=sh('openssl','ec','-text','-noout',inp=pem).decode()
    p=hexfield(t,'pub'); assert p[0]==4
    w(nm+'.key',der); w(nm+'.pub',p[1:])
pem=sh('openssl','genpkey','-algorithm','ED25519'); t=sh('openssl','pkey','-text','-noout',inp=pem).decode()
seed=hexfield(t,'priv'); pub=hexfield(t,'pub')
# ring wants PKCS#8 v2 with the public key (RFC 5958)
w('ed25519.key',bytes.fromhex('3053020101300506032b657004220420')+seed+bytes.fromhex('a123032100')+pub); w('ed25519.pub',pub)
pem=sh('openssl','genpkey','-algorithm','ED448'); t=sh('openssl','pkey','-text','-noout',inp=pem).decode()
w('ed448.key',hexfield(t,'priv')); w('ed448.pub',hexfield(t,'pub'))
