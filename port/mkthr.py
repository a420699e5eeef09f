"""Generate vp_thr.h from the threshold headers of the working tree: a Thresholds class derived from the library's own one
in which every single/multi-thread switching threshold is a run-time variable that generated cases set."""
import re, os
def main(port):
    names, tpl = {}, {}
    for f in ('nntl/interface/math/smath_thr.h', 'nntl/interface/math/mathn_thr.h'):
        p = os.path.join(port, f)
        if not os.path.exists(p): continue
        s = open(p, encoding='latin-1').read()
        s = re.sub(r'//[^\n]*', '', s); s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        t = re.sub(r'template\s*<\s*>\s*struct\s+(\w+)\s*<([^>]*)>\s*\{\s*static\s+constexpr\s+(\w+)\s+(\w+)\s*=[^;]*;\s*\}\s*;',
                   lambda m: tpl.setdefault(m.group(1), (m.group(3), m.group(4))) and '', s)
        for m in re.finditer(r'template\s*<([^<>]*)>\s*struct\s+(\w+)\s*\{\s*\}\s*;', t):
            if m.group(2) in tpl and len(tpl[m.group(2)]) == 2:
                ps = ','.join(re.sub(r'\b(bool|typename|class)\s+\w+', r'\1', q.strip()) for q in m.group(1).split(','))
                tpl[m.group(2)] = tpl[m.group(2)] + (ps,)
        for m in re.finditer(r'static\s+constexpr\s+(vec_len_t|numel_cnt_t|thread_id_t|size_t)\s+(\w+)\s*=', t): names.setdefault(m.group(2), m.group(1))
    tpl = {k: v for k, v in tpl.items() if len(v) == 3}
    o = ['#pragma once', 'namespace vpthr { using namespace nntl;',
         'template<class R> struct VThr : public nntl::math::_impl::MATHN_THR<R> {',
         ' typedef nntl::math::_impl::MATHN_THR<R> B_;']
    for n, ty in names.items(): o.append(' static inline %s %s = %s(B_::%s);' % (ty, n, ty, n))
    for n, (ty, mem, ps) in tpl.items(): o.append(' template<%s> struct %s { static inline %s %s = 40; };' % (ps, n, ty, mem))
    o.append(' template<class F> static void set_all(F f) {')
    for n, ty in names.items(): o.append('  %s = %s(f("%s", (long long)(B_::%s)));' % (n, ty, n, n))
    for n, (ty, mem, ps) in tpl.items():
        kinds = ps.replace(' ', '').split(',')
        if all(k == 'bool' for k in kinds):
            for c in range(1 << len(kinds)):
                a = ','.join('true' if c >> i & 1 else 'false' for i in range(len(kinds)))
                o.append('  %s<%s>::%s = %s(f("%s", (long long)(B_::template %s<%s>::%s)));' % (n, a, mem, ty, n, n, a, mem))
    o.append(' }'); o.append('};'); o.append('}')
    open(os.path.join(port, 'vp_thr.h'), 'w').write('\n'.join(o) + '\n')
