# Regenerates contracts/src/rfc5054.rs: RFC 5054 literals for 1024/1536/2048 bits (read once from the tree at
# the pinned commit and checked against the RFC's leading and trailing words), the RFC 3526 formula above that.
import mpmath
def pi_floor(bits):
    mpmath.mp.prec = bits+200
    return int(mpmath.floor(mpmath.mpf(2)**bits*mpmath.pi))
c={3072:1690314,4096:240904,6144:929484,8192:4743158}
ends={1024:("EEAF0AB9ADB38DD69C33F80AFA8FC5E86072618775FF3C0B9EA2314C9C256576D674DF7496EA81D3383B4813D692C6E0E0D5D8E250B98BE48E495C1D6089DAD15DC7D7B46154D6B6CE8EF4AD69B15D4982559B297BCF1885C529F566660E57EC68EDBC3C05726CC02FD4CBF4976EAA9AFD5138FE8376435B9FC61D2FC0EB06E3",""),
      1536:("9DEF3CAFB939277AB1F12A8617A47BBBDBA51DF499AC4C80BEEEA961","8CE7A28C2442C6F315180F93499A234DCF76E3FED135F9BB"),
      2048:("AC6BDB41324A9A9BF166DE5E1389582FAF72B6651987EE07FC319294","94B5C803D89F7AE435DE236D525F54759B65E372FCD68EF20FA7111F9E4AFF73")}
out=["// Generated by tools/mkgroups.py: moduli of RFC 5054 appendix A.\n"]
for k in (1024,1536,2048,3072,4096,6144,8192):
    n=int.from_bytes(open(f'/repo/srp/src/groups/{k}.bin','rb').read(),'big')
    if k in c:
        m=2**k-2**(k-64)-1+2**64*(pi_floor(k-130)+c[k])
        print(k, m==n); n=m
    else:
        h='%X'%n
        print(k, h.startswith(ends[k][0]), h.endswith(ends[k][1]), n.bit_length())
    b=n.to_bytes((n.bit_length()+7)//8,'big')
    out.append(f"pub const RFC5054_{k}: &[u8] = &[{', '.join(map(str,b))}];\n")
open('/verif/contracts/src/rfc5054.rs','w').write(''.join(out))
