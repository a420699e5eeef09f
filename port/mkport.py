#!/usr/bin/env python3
"""Copies /repo/nntl into a build directory, translating the handful of MSVC-only
spellings that clang's MSVC mode rejects.  Every rule is purely syntactic and tolerant
(pattern based, applied to whatever is in the working tree), and never changes what the code does."""
import os, re, sys

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|#[^\n]*(?:\\\r?\n[^\n]*)*|[{};]|\b(?:class|struct|union|enum|namespace)\b', re.S)

def class_scopes(s):
    """list of (start, end, name) for each class/struct body"""
    out, stack, pend = [], [], None
    for m in TOK.finditer(s):
        t = m.group(0)
        if t in ('class', 'struct', 'union', 'enum', 'namespace'):
            if pend and pend[0] == 'enum': continue      # enum class
            mm = re.compile(r'\s+(?:alignas\([^)]*\)\s*)?(\w+)(?=\s*(?:final\b\s*)?(?:[:{]|$))', re.S).match(s, m.end())
            if mm: pend = (t, mm.group(1))
        elif t == ';':
            pend = None
        elif t == '{':
            stack.append((pend, m.end())); pend = None
        elif t == '}':
            if stack:
                p, st = stack.pop()
                if p and p[0] in ('class', 'struct', 'union'): out.append((st, m.start(), p[1]))
    return out

def innermost(scopes, pos):
    best = None
    for st, en, n in scopes:
        if st <= pos < en and (best is None or st > best[0]): best = (st, n)
    return best[1] if best else None

# members of a dependent base, used in a declaration (not in a body) without qualification
DECL_NAMES = ['calcOnFprop', 'appendToNZGrad', 'bAllowToBlockLearning']

def sub_scoped(s, pat, f):
    sc = class_scopes(s)
    return re.sub(pat, lambda m: f(m, innermost(sc, m.start())), s)

def port_text(rel, s):
    base = os.path.basename(rel)
    # MSVC takes 'using Base::type;' for a dependent type
    s = re.sub(r'\busing\s+((?:\w+(?:<[^;<>]*>)?::)+)(\w+_t)\s*;', r'using typename \1\2;', s)
    if base == 'smatrix.h':     # same rule as the reference build
        i = re.search(r'^[ \t]*class smatrix_deform\b', s, re.M)
        if i: s = s[:i.start()] + re.sub(r'\bsmatrix(&&?)', r'smatrix<T_>\1', s[i.start():])
    # 'enable_if_t<c, static T> f()' / 'enable_if_t<c, constexpr T> f()'
    s = re.sub(r'(::std::enable_if_t<[^;{}]*?,\s*)(static|constexpr) (\w[\w:]*>)', lambda m: ('static ' if m.group(2) == 'static' else '') + m.group(1) + m.group(3), s)
    # default template arguments naming a member of a dependent base
    s = sub_scoped(s, r'(template\s*<[^;{}()]*?=\s*)(%s)(?=\s*[,>])' % '|'.join(DECL_NAMES), lambda m, c: m.group(1) + (c + '::' if c else '') + m.group(2))
    # static_assert / constexpr initializer at class scope naming a member of a dependent base
    def q(m, c):
        return re.sub(r'(?<![\w:.>])(bActivationForHidden|bActivationForOutput|phl_count)\b', lambda k: (c + '::' if c else '') + k.group(1), m.group(0))
    s = sub_scoped(s, r'static_assert\s*\([^;]*;', q)
    s = sub_scoped(s, r'static constexpr size_t \w+ = phl_count\b', q)
    if base in ('layers.h', 'nnet.h'):
        s = sub_scoped(s, r'typedef\s+typename\s+iMath_t::', lambda m, c: 'typedef typename %s::iMath_t::' % c)
    if base == 'mathn.h':
        s = re.sub(r'(OpType\s*==\s*)(mrw_[cr]w)', r'\1base_class_t::\2', s)
        s = re.sub(r'(typedef _SMath<[^;]*> base_class_t;)', r'\1 using typename base_class_t::self_t; template<typename PortT_> using converter_reduce_data_tpl = typename base_class_t::template converter_reduce_data_tpl<PortT_>;', s)
    if base == 'workers.h':
        s = re.sub(r'(class Workers\s*:\s*public (_i_threads<RealT, RangeT>)\s*\{)', r'\1 public: template<typename PortT_> using converter_reduce_data_t = typename \2::template converter_reduce_data_t<PortT_>; private:', s)
    s = re.sub(r'is_base_of<(_i_layer_(?:fprop|trainable)), (LowerLayerT?)>', r'is_base_of<::nntl::\1<typename \2::real_t>, \2>', s)
    # 'Type::tag_x()' value-initialised tag objects of dependent types
    s = re.sub(r'(?<![\w:>])(?:\w+::)+tag_noBias\(\)', r'::nntl::math::tag_noBias()', s)
    s = re.sub(r'(?<![\w:])Thresholds_t::(\w+)<', r'Thresholds_t::template \1<', s)
    s = re.sub(r'(\b\w+::)_Get_container\(\)', r'\1c', s)     # Dinkumware's accessor of the protected container
    s = sub_scoped(s, r'(layer_idx_keeper<\s*layer_index_t\s*,\s*)(_NoLayerIdxSpecified)', lambda m, c: m.group(1) + (c + '::' if c else '') + m.group(2))
    if base == 'matfile.h':
        s = sub_scoped(s, r'(?<![\w:])FileOpenMode fom = FileOpenMode::', lambda m, c: 'typename %s::FileOpenMode fom = %s::FileOpenMode::' % (c, c))
    if '/layer/' in rel:
        s = re.sub(r'(?<![\w.>:])get_self\(\)\._forwarder_layer', 'this->get_self()._forwarder_layer', s)
        s = re.sub(r'(?<![\w:>])ErrorCode::(?=\w)', '::nntl::_nnet_errs::ErrorCode::', s)
        s = re.sub(r'(?<=[(,=])(\s*)mtx_size_t\(', r'\1::nntl::math::smatrix_td::mtx_size_t(', s)
        s = re.sub(r'(?<![\w:])realmtx_t::sNumel\(', r'::nntl::math::smatrix_td::sNumel(', s)    # generic lambdas do not look into the dependent base
    if base == 'tictoc.h':
        s = s.replace('high_resolution_clock', 'steady_clock')
    if base == '_i_loss_addendum.h':
        s = re.sub(r'(?<=\bconst )mtx_size_t(?= biggestMtx, const CommonDataT& CD\) noexcept \{)', 'math::smatrix_td::mtx_size_t', s)
        # declaration-only interface stub
        s = re.sub(r'template <typename CommonDataT, bool c = \w+::calcOnFprop>(\s*nntl_interface)', r'template <typename CommonDataT, bool c = false>\1', s)
    if base == 'serialization.h':
        i = s.find('struct named_struct')
        if i >= 0:
            j = s.find('};', s.find('explicit', i))
            s = s[:i] + re.sub(r'(?<![<\w])nvp(?=[&( ])(?! &? ?\w* ?<)', 'nvp<T>', s[i:j]) + s[j:]
    if base != '_i_train_data.h':
        s = re.sub(r'(?<![\w:.>])(flag_exclude_(?:nothing|dataX|dataY)|train_set_id|test_set_id|invalid_set_id)\b', r'::nntl::DataSetsId::\1', s)
    # default arguments of member templates that look into the (yet incomplete) CRTP child
    s = re.sub(r'template\s*<\s*bool (\w+)\s*=\s*([^;{}=]*?)\bself_t\b([^;{}=]*?>)(?=\s*(?:::std::enable_if_t|static|auto|bool|void))',
               r'template<typename PortSelf_ = self_t, bool \1 = \2PortSelf_\3', s)
    if base == '_td_base.h':
        s = s.replace('= typename self_t::default_StatsFuncT', '= typename ::nntl_port::lazy<self_t, CommonDataT>::default_StatsFuncT')
        s = s.replace('= self_t::template NormalizerF_tpl', '= typename ::nntl_port::lazy<self_t, CommonDataT>::template NormalizerF_tpl')
        s = s.replace('is_base_of<_i_train_data,', 'is_base_of<_i_train_data<XT, YT>,')
    if base == '_td_norm.h':
        s = re.sub(r'(?<!typename )decltype\((\w+)\)::(\w+_t)\b', r'typename decltype(\1)::\2', s)
        s = s.replace('typename self_t::mtx_update_t', 'typename StatsFunctor_t::mtx_update_t')
    if base == 'transf_train_data.h':
        s = s.replace('= self_t::template NormalizerF_tpl', '= typename ::nntl_port::lazy<FinalPolymorphChild, CommonDataT>::template NormalizerF_tpl')
    # calls of member templates of dependent objects
    s = re.sub(r'(\.|->)(\w+)(<[^<>;(){}=&|]*(?:<[^<>;(){}]*>)?[^<>;(){}=|]*>\s*\()', r'\1template \2\3', s)
    s = s.replace('"../../nntl/nntl/_supp/', '"./_supp/')
    s = re.sub(r'"(?:\.\./)+_extern/rapidjson/include/(rapidjson/[\w/.]+)"', r'<\1>', s)
    return s

def main(src, dst):
    for root, dirs, files in os.walk(os.path.join(src, 'nntl')):
        for f in files:
            if not f.endswith('.h'): continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            s = open(p, 'rb').read().decode('latin-1')
            s = port_text(rel, s)
            q = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            b = s.encode('latin-1')
            if os.path.exists(q) and open(q, 'rb').read() == b: continue
            open(q, 'wb').write(b)
if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
