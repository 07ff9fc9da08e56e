"""Analyser self test: floating point transfer functions against the host's arithmetic. usage: python3-vt tools/selftest_fp.py (after engine/build.sh)"""
import glob, json, os, subprocess, tempfile
import random,struct,math,numpy as np
random.seed(5)
def fb(x): return struct.unpack('<I',struct.pack('<f',x))[0]
def bf(u): return np.frombuffer(struct.pack('<I',u),dtype=np.float32)[0]
def db(x): return struct.unpack('<Q',struct.pack('<d',x))[0]
def bd(u): return np.frombuffer(struct.pack('<Q',u),dtype=np.float64)[0]
np.seterr(all='ignore')
def rf():
    k=random.random()
    if k<.3: return random.getrandbits(32)
    if k<.7: return fb(random.uniform(-300,300))
    if k<.75: return random.getrandbits(23)
    if k<.8: return fb(random.randrange(-70000,70000)/2)
    if k<.85: return random.choice([0,0x80000000,0x3f800000,0xbf800000,0x7f7fffff,0x00800000,1])
    return fb(random.uniform(-2,2))
def rd():
    k=random.random()
    if k<.3: return random.getrandbits(64)
    if k<.7: return db(random.uniform(-300,300))
    if k<.75: return random.getrandbits(52)
    if k<.8: return db(random.randrange(-70000,70000)/2)
    if k<.85: return random.choice([0,1<<63,0x3ff0000000000000,1,0x7fefffffffffffff])
    if k<.9: return db(float(bf(random.getrandbits(31)%0x7f800000)))
    return db(random.uniform(-2,2))
def rnd(x):
    t=math.trunc(x); 
    return type(x)(math.copysign(math.floor(abs(float(x))+0.5) if abs(float(x))<2**51 and abs(float(x))!=0.49999999999999994 else abs(t),x))
L=['#include "vp.h"','#include <cmath>','#include <cstring>',
'static float F(uint32_t u){float f;memcpy(&f,&u,4);return f;} static uint32_t U(float f){uint32_t u;memcpy(&u,&f,4);return u;}',
'static double D(uint64_t u){double f;memcpy(&f,&u,8);return f;} static uint64_t V(double f){uint64_t u;memcpy(&u,&f,8);return u;}']
n=0
def emit(op,bits,isd,exp):
    global n
    L.append(f'static void t{n}(){{ auto x=vp_sym("x",{64 if isd else 32},8); if(x!={bits}ull) return; {"double" if isd else "float"} f={"D(x)" if isd else "F(uint32_t(x))"}; vp_eq({op},{exp}ull,"t{n} {op} {bits:#x}"); }}')
    n+=1
for i in range(120):
    u=rf(); f=bf(u)
    if np.isnan(f): continue
    c=random.choice([65535.,4294967295.,3.7,0.5,33554432.,1e30,-7.,1.,2.])
    cf=np.float32(c)
    def safe(v): return not np.isnan(v)
    for op,v in [(f'U(f*{float(cf)!r}f)',f*cf),(f'U(f+{float(cf)!r}f)',f+cf),(f'U(f-({float(cf)!r}f))',f-cf)]:
        if safe(v): emit(op,u,False,fb(v))
    for op,v in [(f'V(f*{c!r})',np.float64(f)*c),(f'V(f-({c!r}))',np.float64(f)-c)]:
        if safe(v): emit(op,u,False,db(v))
    if np.isfinite(f):
        for nm,fn in [('floor',np.floor),('ceil',np.ceil),('trunc',np.trunc),('rint',np.rint),('fabs',np.abs)]:
            emit(f'U(__builtin_{nm}f(f))',u,False,fb(fn(f)))
        emit('U(__builtin_roundf(f))',u,False,fb(np.float32(math.copysign(math.floor(abs(float(f))+.5),f))))
        if 0<=f<2**32: emit('uint32_t(f)',u,False,int(f))
        if -2**31<=f<2**31: emit('uint32_t(int32_t(f))',u,False,int(f)&0xffffffff)
        if 0<=f<2**64: emit('uint64_t(f)',u,False,int(f))
for i in range(120):
    u=rd(); f=bd(u)
    if np.isnan(f): continue
    c=random.choice([65535.,4294967295.,3.7,0.5,33554432.,1e30,-7.,1.,2.])
    for op,v in [(f'V(f*{c!r})',f*c),(f'V(f+{c!r})',f+c),(f'V(f-({c!r}))',f-c)]:
        if not np.isnan(v): emit(op,u,True,db(v))
    emit('U(float(f))',u,True,fb(np.float32(f)))
    if np.isfinite(f):
        for nm,fn in [('floor',np.floor),('ceil',np.ceil),('trunc',np.trunc),('rint',np.rint)]:
            emit(f'V(__builtin_{nm}(f))',u,True,db(fn(f)))
        if abs(f)<2**50: emit('V(__builtin_round(f))',u,True,db(math.copysign(math.floor(abs(f)) + (1 if abs(f)-math.floor(abs(f))>=.5 else 0),f)))
        if 0<=f<2**32: emit('uint32_t(f)',u,True,int(f))
        if -2**31<f<2**31: emit('uint32_t(int32_t(f))',u,True,int(f)&0xffffffff)
        if 0<=f<2**64: emit('uint64_t(f)',u,True,int(f))
for i in range(60):
    x=random.getrandbits(random.choice([8,20,24,25,32,40,53,54,60,64]))
    L.append(f'static void t{n}(){{ auto x=vp_sym("x",64,8); if(x!={x}ull) return; vp_eq(V(double(x)),{db(float(x))}ull,"t{n} u2d {x}"); vp_eq(U(float(x)),{fb(np.float32(np.uint64(x)))}ull,"t{n} u2f {x}"); vp_eq(V(double(int64_t(x))),{db(float(np.int64(np.uint64(x).astype(np.int64))))}ull,"t{n} s2d {x}"); }}'); n+=1
for k in range(0,n,100): L.append(f'VPE(e{k}) {{ '+' '.join(f't{j}();' for j in range(k,min(n,k+100)))+' }')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    open(d + '/p.cpp', 'w').write('\n'.join(L))
    subprocess.check_call(['/usr/lib/llvm-18/bin/clang++', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-std=c++17', '-fno-exceptions', '-I', V + '/harness', '-Wno-everything', '-emit-llvm', '-c', d + '/p.cpp', '-o', d + '/p.bc'])
    vpa = V + '/build/vpa'
    bad = total = 0
    for e in subprocess.check_output([vpa, '--list', d + '/p.bc'], text=True).split():
        r = json.loads(subprocess.check_output([vpa, d + '/p.bc', '--repo', d + '/', '--entry', e], text=True))
        total += r['checks']
        for v in r['violations'] + r['inconclusive'] + ([r['reason']] if r['status'] != 'ok' else []):
            bad += 1
            print(v)
    print('%d comparisons, %d wrong' % (total, bad))
