# one-off generator of the compile-time swizzle/permute tables in src/bin/lane_traits.rs
import itertools
sw='XYZW'; pm=['0X','0Y','0Z','0W','1X','1Y','1Z','1W']
out=[]
out.append("// generated by gen_bins.py: every compile-time swizzle, and a spread of compile-time permutes\n")
out.append("use dxharness::*; use directx_math::*;\npub fn swz(n: u32, v: XMVECTOR) -> XMVECTOR { match n {\n")
for i,c in enumerate(itertools.product(range(4),repeat=4)):
    n=sum(x<<(2*k) for k,x in enumerate(c))
    out.append(f"  {n} => <({','.join('Swizzle'+sw[x] for x in c)}) as XMVectorSwizzle>::XMVectorSwizzle(v),\n")
out.append("  _ => panic!(\"bad index\") } }\n")
combos=set()
for base in [(0,1,2,3),(4,5,6,7),(0,1,4,5),(6,7,2,3)]:
    combos.add(base)
    for k in range(4):
        for d in range(8):
            b=list(base); b[k]=d; combos.add(tuple(b))
x=12345
while len(combos)<384:
    x=(x*1103515245+12345)%(1<<31); combos.add(((x>>4)&7,(x>>9)&7,(x>>14)&7,(x>>19)&7))
out.append("pub fn prm(n: u32, a: XMVECTOR, b: XMVECTOR) -> Option<XMVECTOR> { Some(match n {\n")
lst=sorted(combos)
for c in lst:
    n=sum(y<<(3*k) for k,y in enumerate(c))
    out.append(f"  {n} => <({','.join('Permute'+pm[y] for y in c)}) as XMVectorPermute>::XMVectorPermute(a, b),\n")
out.append("  _ => return None }) }\n")
open('src/bin/lane_traits.inc','w').write(''.join(out))
nums=[sum(y<<(3*k) for k,y in enumerate(c)) for c in lst]
open('../spec/PermuteForms.tla','w').write("---- MODULE PermuteForms ----\n\\* index tuples (packed, 3 bits per lane) whose compile-time permute the harness instantiates (generated by harness/gen_bins.py)\nPermuteForms == <<"+', '.join(map(str,nums))+">>\n====\n")
