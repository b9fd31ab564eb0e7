T=[('c','signed char','char'),('h','unsigned char','uchar'),('s','short','short'),('t','unsigned short','ushort'),('i','int','int'),('j','unsigned','uint'),('l','long','long'),('m','unsigned long','ulong'),('f','float','float'),('d','double','double')]
INT=T[:8]; FP=T[8:]
o=[]
def m(name,codes): return '_Z%d%s%s'%(len(name),name,codes)
def fn(ret,name,args,body):
    # args: [(code,ctype)]
    o.append('%s %s(%s) { %s }'%(ret,m(name,''.join(a[0] for a in args)),', '.join('%s %s'%(a[1],'abcd'[i]) for i,a in enumerate(args)),body))
o.append('''// Scalar builtins of OpenCL C that kernels may call, under the names clang
// gives them. Written by tools/builtins.py; included by mockcl.cpp.
template<class R, class T> static R saturate(T v)
{
    if (v != v) return 0;
    const long double x = v, lo = std::numeric_limits<R>::lowest(),
                      hi = std::numeric_limits<R>::max();
    return x < lo ? std::numeric_limits<R>::lowest()
                  : x > hi ? std::numeric_limits<R>::max() : (R)v;
}
template<class T> static T high(T a, T b)
{
    return (T)(((__int128)a * (__int128)b) >> (sizeof(T) * 8));
}
template<class T> static int zeros(T v)
{
    int n = 0;
    for (int i = sizeof(T) * 8; i-- > 0 && !((unsigned long)v >> i & 1);) ++n;
    return n;
}
extern "C" {''')
for r in T:
    for a in T:
        fn(r[1],'convert_'+r[2],[a[:2]],'return (%s)a;'%r[1])
        for md in ('rte','rtz'):
            if a in INT and r in INT: fn(r[1],'convert_%s_%s'%(r[2],md),[a[:2]],'return (%s)a;'%r[1])
            elif r in INT: fn(r[1],'convert_%s_%s'%(r[2],md),[a[:2]],'return (%s)%s(a);'%(r[1],'rint' if md=='rte' else 'trunc'))
            elif md=='rte': fn(r[1],'convert_%s_%s'%(r[2],md),[a[:2]],'return (%s)a;'%r[1])
        if r in INT: fn(r[1],'convert_'+r[2]+'_sat',[a[:2]],'return saturate<%s>(a);'%r[1])
S={'c':'h','h':'h','s':'t','t':'t','i':'j','j':'j','l':'m','m':'m'}
U={t[0]:t[1] for t in T}
for t in INT:
    A=t[:2]; ty=t[1]; u=U[S[t[0]]]
    fn(u,'abs',[A],'return (%s)(a < 0 ? -(long)a : (long)a);'%u if t[0] in 'csil' else 'return a;')
    fn(u,'abs_diff',[A,A],'return a < b ? (%s)b - (%s)a : (%s)a - (%s)b;'%(u,u,u,u))
    fn(ty,'min',[A,A],'return b < a ? b : a;')
    fn(ty,'max',[A,A],'return a < b ? b : a;')
    fn(ty,'clamp',[A,A,A],'return a < b ? b : c < a ? c : a;')
    fn(ty,'add_sat',[A,A],'return saturate<%s>((__int128)a + b);'%ty if t[0] not in 'lm' else '%s v; return __builtin_add_overflow(a, b, &v) ? %s : v;'%(ty, 'std::numeric_limits<unsigned long>::max()' if t[0]=='m' else '(a < 0 ? std::numeric_limits<long>::lowest() : std::numeric_limits<long>::max())'))
    fn(ty,'sub_sat',[A,A],'return saturate<%s>((__int128)a - b);'%ty if t[0] not in 'lm' else '%s v; return __builtin_sub_overflow(a, b, &v) ? %s : v;'%(ty, '0' if t[0]=='m' else '(a < 0 ? std::numeric_limits<long>::lowest() : std::numeric_limits<long>::max())'))
    fn(ty,'hadd',[A,A],'return (%s)(((__int128)a + b) >> 1);'%ty)
    fn(ty,'rhadd',[A,A],'return (%s)(((__int128)a + b + 1) >> 1);'%ty)
    fn(ty,'mul_hi',[A,A],'return high(a, b);')
    fn(ty,'mad_hi',[A,A,A],'return (%s)(high(a, b) + c);'%ty)
    fn(ty,'clz',[A],'return (%s)zeros((%s)a);'%(ty,u))
    fn(ty,'popcount',[A],'return (%s)__builtin_popcountl((unsigned long)(%s)a);'%(ty,u))
    fn(ty,'bitselect',[A,A,A],'return (%s)((a & ~c) | (b & c));'%ty)
    fn(ty,'rotate',[A,A],'const int n = sizeof a * 8, k = (int)(b & (n - 1)); %s v = (%s)a; return (%s)(k ? v << k | v >> (n - k) : v);'%(u,u,ty))
    for q in INT:
        if q[0] in (t[0],S[t[0]]) or S[q[0]]==S[t[0]]:
            fn(ty,'select',[A,A,q[:2]],'return c ? b : a;')
    if t[0] in 'csil':
        fn('int','any',[A],'return a < 0;'); fn('int','all',[A],'return a < 0;')
    if t[0] in 'ij':
        fn(ty,'mul24',[A,A],'return a * b;'); fn(ty,'mad24',[A,A,A],'return a * b + c;')
for t in FP:
    A=t[:2]; ty=t[1]
    for n in ('fabs sqrt floor ceil round trunc rint exp log exp2 log2 log10 sin cos tan cbrt'.split()):
        fn(ty,n,[A],'return std::%s(a);'%n)
    fn(ty,'rsqrt',[A],'return 1 / std::sqrt(a);')
    fn(ty,'sign',[A],'return a > 0 ? 1 : a < 0 ? -1 : a == 0 ? a : 0;')
    for n in 'fmin fmax pow fmod copysign fdim hypot nextafter remainder'.split():
        fn(ty,n,[A,A],'return std::%s(a, b);'%n)
    fn(ty,'min',[A,A],'return b < a ? b : a;'); fn(ty,'max',[A,A],'return a < b ? b : a;')
    fn(ty,'clamp',[A,A,A],'return a < b ? b : c < a ? c : a;')
    fn(ty,'step',[A,A],'return b < a ? 0 : 1;'); fn(ty,'mix',[A,A,A],'return a + (b - a) * c;')
    fn(ty,'mad',[A,A,A],'return a * b + c;'); fn(ty,'fma',[A,A,A],'return std::fma(a, b, c);')
    fn(ty,'pown',[A,('i','int')],'%s v = 1; for (int i = 0; i < (b < 0 ? -b : b); ++i) v *= a; return b < 0 ? 1 / v : v;'%ty)
    fn(ty,'ldexp',[A,('i','int')],'return std::ldexp(a, b);')
    for n,e in (('isnan','a != a'),('isinf','std::isinf(a)'),('isfinite','std::isfinite(a)'),('signbit','std::signbit(a)'),('isnormal','std::isnormal(a)')):
        fn('int',n,[A],'return %s;'%e)
    for n,e in (('isless','a < b'),('isgreater','a > b'),('islessequal','a <= b'),('isgreaterequal','a >= b'),('isequal','a == b'),('isnotequal','a != b'),('isordered','a == a && b == b'),('isunordered','a != a || b != b'),('islessgreater','a < b || a > b')):
        fn('int',n,[A,A],'return %s;'%e)
    for q in (('i','j') if t[0]=='f' else ('l','m')):
        fn(ty,'select',[A,A,(q,U[q])],'return c ? b : a;')
A=('f','float')
for p in ('native_','half_'):
    for n in 'sqrt exp log exp2 log2 sin cos'.split(): fn('float',p+n,[A],'return std::%s(a);'%n)
    fn('float',p+'recip',[A],'return 1 / a;'); fn('float',p+'rsqrt',[A],'return 1 / std::sqrt(a);')
    fn('float',p+'divide',[A,A],'return a / b;')
# atomics
for sp in ('PU8CLglobal','PU7CLlocal'):
    for code,ty in (('i','int'),('j','unsigned')):
        for pre in ('atomic_','atom_'):
            for n,e in (('and','o & v'),('or','o | v'),('xor','o ^ v'),('add','o + v'),('sub','o - v'),('xchg','v'),('max','o > v ? o : v'),('min','o < v ? o : v')):
                o.append('%s _Z%d%s%s%sV%s%s(volatile %s* p, %s v) { access((const void*)p, 4); %s o = *p; (void)v; *p = %s; return o; }'%('',len(pre+n),pre+n,'',sp,code,code,ty,ty,ty,e) if 0 else '%s _Z%d%s%sV%s%s(volatile %s* p, %s v) { access((const void*)p, 4); %s o = *p; (void)v; *p = %s; return o; }'%(ty,len(pre+n),pre+n,sp,code,code,ty,ty,ty,e))
            for n,e in (('inc','o + 1'),('dec','o - 1')):
                o.append('%s _Z%d%s%sV%s(volatile %s* p) { access((const void*)p, 4); %s o = *p; *p = %s; return o; }'%(ty,len(pre+n),pre+n,sp,code,ty,ty,e))
            o.append('%s _Z%d%scmpxchg%sV%s%s%s(volatile %s* p, %s c, %s v) { access((const void*)p, 4); %s o = *p; if (o == c) *p = v; return o; }'%(ty,len(pre)+7,pre,sp,code,code,code,ty,ty,ty,ty))
    o.append('float _Z11atomic_xchg%sVff(volatile float* p, float v) { access((const void*)p, 4); float o = *p; *p = v; return o; }'%sp)
o.append('}')
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','mockcl','builtins.hpp'),'w').write('\n'.join(o)+'\n')
