#!/usr/bin/env python3
"""Generates C++ types for the serialization harness: gen.py SEED NROOTS OUTDIR NTU NHASH

Writes types.h (classes), reg.cpp (their registration) and roots_<i>.cpp (root
types, added to the directory)."""
import random, sys

def main():
    seed, nroots, out, ntu = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    nhash = int(sys.argv[5])
    r = random.Random(seed)
    SC = ['bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned',
          'long', 'unsigned long', 'long long', 'std::uint64_t', 'std::int8_t', 'std::uint16_t', 'float', 'double',
          'char16_t', 'char32_t', 'E8', 'E16', 'EU32', 'E64', 'OldEnum']
    KEYS = ['int', 'unsigned char', 'short', 'std::uint64_t', 'std::string', 'E16', 'std::pair<int, std::string>',
            'std::array<unsigned char, 3>', 'std::tuple<short, char, std::string>', 'char', 'std::vector<short>',
            'std::optional<int>']
    HKEYS = ['int', 'unsigned char', 'std::string', 'std::int64_t', 'char']
    DUR = ['std::chrono::nanoseconds', 'std::chrono::microseconds', 'std::chrono::milliseconds', 'std::chrono::seconds',
           'std::chrono::minutes', 'std::chrono::hours', 'std::chrono::duration<std::int64_t, std::ratio<7, 30>>',
           'std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>',
           'std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>']
    classes = []   # dict(name, kind, bases, fields, customs, dyn, ptr)
    agg = []; cls = []; dyn = []

    # ptr: may hold shared pointers. rec: the class being defined, for self references.
    def ty(d, ptr, rec=None):
        x = r.random()
        if d <= 0 or x < 0.22:
            return r.choice(SC) if r.random() < .8 else 'std::string'
        if x < .30: return 'std::string'
        if x < .42: return r.choice(['std::vector', 'std::vector', 'std::deque', 'std::list']) + '<%s>' % ty(d - 1, ptr, rec)
        if x < .46: return 'std::array<%s, %d>' % (ty(d - 1, ptr, rec), r.randint(1, 4))
        if x < .51: return 'std::optional<%s>' % ty(d - 1, ptr, rec)
        if x < .56: return 'std::pair<%s, %s>' % (ty(d - 1, ptr, rec), ty(d - 1, ptr, rec))
        if x < .61: return 'std::tuple<%s>' % ', '.join(ty(d - 1, ptr, rec) for _ in range(r.randint(1, 5)))
        if x < .66: return r.choice(DUR)
        if x < .71:
            if r.random() < .4: return r.choice(['std::unordered_set', 'std::unordered_multiset']) + '<%s>' % r.choice(HKEYS)
            return r.choice(['std::set', 'std::multiset', 'arpc::flat_set', 'arpc::flat_multiset']) + '<%s>' % r.choice(KEYS)
        if x < .79:
            if r.random() < .3: return 'std::unordered_map<%s, %s>' % (r.choice(HKEYS), ty(d - 1, ptr, rec))
            if r.random() < .3:
                return r.choice(['std::multimap<%s, %s>', 'arpc::flat_multimap<%s, %s>', ]) % (r.choice(KEYS), ty(d - 1, False))
            return r.choice(['std::map', 'arpc::flat_map']) + '<%s, %s>' % (r.choice(KEYS), ty(d - 1, ptr, rec))
        if x < .86 and (agg or cls):
            c = r.choice([c for c in agg + cls if ptr or not c['ptr']] or [None])
            if c: return c['name']
            return 'int'
        if ptr:
            p = r.choice(['std::unique_ptr<%s>', 'std::shared_ptr<%s>', 'std::shared_ptr<%s>', 'std::weak_ptr<%s>'])
            y = r.random()
            if rec and y < .5: return p % rec
            if y < .8 and dyn: return p % r.choice(dyn)['name']
            if y < .9 and cls: return p % r.choice(cls)['name']
            return p % ty(d - 1, True, rec)
        return r.choice(SC)

    # Aggregates are serialized as tuples only if they have standard layout.
    def aty(d, ptr):
        x = r.random()
        if d <= 0 or x < .4: return r.choice(SC) if r.random() < .7 else 'std::string'
        if x < .55: return r.choice(['std::vector', 'std::deque']) + '<%s>' % ty(d - 1, ptr)
        if x < .65: return 'std::array<%s, %d>' % (aty(d - 1, ptr), r.randint(1, 3))
        if x < .75: return 'std::optional<%s>' % aty(d - 1, ptr)
        if x < .82: return 'std::pair<%s, %s>' % (aty(d - 1, ptr), aty(d - 1, ptr))
        if x < .87: return r.choice(DUR)
        if x < .93 and agg:
            c = r.choice([c for c in agg if ptr or not c['ptr']] or [None])
            if c: return c['name']
        if x < .97: return 'std::unordered_map<%s, %s>' % (r.choice(HKEYS), ty(d - 1, ptr))
        if ptr: return r.choice(['std::unique_ptr<%s>', 'std::shared_ptr<%s>', 'std::weak_ptr<%s>']) % ty(d - 1, True)
        return r.choice(SC)

    def new(kind, i):
        n = {'a': 'Agg', 'c': 'Cls', 'd': 'Dyn'}[kind] + str(i)
        c = dict(name=n, kind=kind, bases=[], fields=[], customs=[], ver=0, dynbase=0, ptr=False, supers=[], reg='', fin=False)
        if kind == 'a':
            c['ptr'] = r.random() < .4
            nf = r.randint(1, 6)
            c['fields'] = [aty(2, c['ptr']) for _ in range(nf)]
            agg.append(c)
        elif kind == 'c':
            c['ptr'] = r.random() < .5
            cand = [b for b in cls if b['ptr'] <= c['ptr'] and not b['fin']]
            if cand and r.random() < .5: c['bases'] = r.sample(cand, r.randint(1, min(2, len(cand))))
            # Avoid ambiguous (repeated) bases.
            seen = set()
            def allb(b): return {b['name']}.union(*[allb(x) for x in b['bases']])
            keep = []
            for b in c['bases']:
                if not (allb(b) & seen): keep.append(b); seen |= allb(b)
            c['bases'] = keep
            nf = r.randint(0, 4)
            c['fields'] = [ty(2, c['ptr'], n if c['ptr'] else None) for _ in range(nf)]
            if r.random() < .35 or nf == 0:
                c['ver'] = r.randint(1, 40)
                c['customs'] = [ty(2, c['ptr']) for _ in range(r.randint(1, 3))]
            cls.append(c)
        else:
            c['ptr'] = True
            nd = [b for b in dyn]
            if nd and r.random() < .75: c['bases'] = [r.choice(nd)]
            else: c['dynbase'] = 1
            seen = set()
            def allb(b): return {b['name']}.union(*[allb(x) for x in b['bases']])
            for b in c['bases']: seen |= allb(b)
            if r.random() < .5:
                x = r.choice(cls)
                # Before or after the polymorphic base.
                if not (allb(x) & seen):
                    c['bases'].insert(r.choice([0, len(c['bases'])]), x) if not c['dynbase'] else c['bases'].append(x)
            c['fields'] = [ty(2, True, n) for _ in range(r.randint(0, 3))]
            if r.random() < .25:
                c['ver'] = r.randint(1, 9); c['customs'] = [ty(1, True)]
            c['side'] = r.random() < .4
            c['supers'] = [n] + [s for b in c['bases'] for s in b['supers']]
            c['reg'] = n if r.random() < .7 else r.choice(['some.name/', 'x']) + n
            dyn.append(c)
        classes.append(c)

    plan = ['c', 'a', 'c', 'd', 'a', 'c', 'd', 'd', 'c', 'a', 'd', 'd', 'c', 'd', 'a']
    for i, k in enumerate(plan): new(k, i)

    h = ['#ifndef TYPES_H_', '#define TYPES_H_', '#include "vf.h"',
         'enum class E8 : std::int8_t { A, B = -3 };', 'enum class E16 : std::uint16_t { A, B = 7 };',
         'enum class EU32 : std::uint32_t { A, B = 0x80000001 };', 'enum class E64 : std::int64_t { A, B = -1 };',
         'enum OldEnum { OE_A, OE_B = 5 };']
    h += ['struct %s;' % c['name'] for c in classes]
    for c in classes:
        n = c['name']
        f = ['  %s f%d{};' % (t, i) for i, t in enumerate(c['fields'])]
        x = ['  %s x%d{};' % (t, i) for i, t in enumerate(c['customs'])]
        if c['kind'] == 'a':
            # In-class initializers would be fine too, but plain aggregates are what users have.
            h += ['struct %s {' % n] + ['  %s f%d;' % (t, i) for i, t in enumerate(c['fields'])] + ['};']
        else:
            b = ', '.join([n] + [x['name'] for x in c['bases']])
            if c['kind'] == 'd':
                h += ['struct %s : %sarpc::%s<%s>%s {' % (n, 'vf::side<%s>, ' % n[3:] if c['side'] else '', 'dynamic', b, ', vf::dyn_root' if c['dynbase'] else '')]
            else:
                h += ['struct %s : arpc::serializable<%s> {' % (n, b)]
            h += f + x
            if c['fields']:
                h.append('  ARPC_FIELDS(%s);' % ', '.join('f%d' % i for i in range(len(c['fields']))))
            if c['ver']:
                h.append('  ARPC_CUSTOM_SERIALIZATION_VERSION(%d);' % c['ver'])
                h.append('  template <typename E> void save(E& e) const { %s }' % ' '.join('e(x%d);' % i for i in range(len(c['customs']))))
                h.append('  template <typename D> void load(D& d) { %s }' % ' '.join('d(x%d);' % i for i in range(len(c['customs']))))
            if c['kind'] == 'd':
                h.append('  const char* vf_name() const override { return "%s"; }' % n)
                h.append('  void vf_dump(vf::dump_ctx& d) const override;')
                h.append('  void vf_gen(vf::gen_ctx& g) override;')
            h.append('};')
    h.append('namespace vf {')
    for c in classes:
        n = c['name']
        h += ['template <> struct parts<%s> {' % n, '  static constexpr const char* name = "%s";' % n,
              "  static constexpr char kind = '%s';" % c['kind'], '  static constexpr int version = %d;' % c['ver'],
              '  static constexpr bool dynbase = %d;' % c['dynbase'], '  static constexpr const char* registered = "%s";' % c['reg'],
              '  static std::string supers() { return "%s"; }' % ','.join('\\"%s\\"' % s for s in c['supers']),
              '  template <typename F> static void bases(F f) { (void)f; %s }' % ' '.join('f(wrap<%s>{});' % b['name'] for b in c['bases']),
              '  template <typename F> static void fields(F f) { (void)f; %s }' % ' '.join('f(&%s::f%d);' % (n, i) for i in range(len(c['fields']))),
              '  template <typename F> static void customs(F f) { (void)f; %s }' % ' '.join('f(&%s::x%d);' % (n, i) for i in range(len(c['customs']))),
              '};']
    for c in dyn:
        n = c['name']
        sup = c['supers'][1:]
        h += ['template <> struct pool_of<%s> {' % n,
              '  static std::vector<std::shared_ptr<void>>& get(gen_ctx& g) { return g.pools[type_number<%s>()]; }' % n,
              '  static void add(gen_ctx& g, const std::shared_ptr<%s>& p) {' % n,
              '    get(g).push_back(p);'] + \
             ['    pool_of<%s>::get(g).push_back(std::static_pointer_cast<%s>(p));' % (s, s) for s in sup] + ['  }', '};']
    for c in dyn:
        n = c['name']
        subs = [x['name'] for x in dyn if n in x['supers']]
        h += ['template <> struct maker<%s> {' % n, '  static %s* make(gen_ctx& g) {' % n, '    switch (g.next(%d)) {' % len(subs)]
        h += ['      case %d: return new %s();' % (i, s) for i, s in enumerate(subs)]
        h += ['    }', '    return nullptr;', '  }', '  static std::shared_ptr<%s> make_shared(gen_ctx& g) {' % n, '    switch (g.next(%d)) {' % len(subs)]
        h += ['      case %d: { auto p = std::make_shared<%s>(); pool_of<%s>::add(g, p); return p; }' % (i, s, s) for i, s in enumerate(subs)]
        h += ['    }', '    return nullptr;', '  }', '};']
    h += ['}', '#endif']
    open(out + '/types.h', 'w').write('\n'.join(h) + '\n')

    g = ['#include "types.h"']
    for c in dyn:
        n = c['name']
        g.append('void %s::vf_dump(vf::dump_ctx& d) const { vf::X<%s>::dump(d, *this); }' % (n, n))
        g.append('void %s::vf_gen(vf::gen_ctx& g) { vf::X<%s>::gen(g, *this); }' % (n, n))
        g.append('ARPC_REGISTER(%s);' % n if c['reg'] == n else 'ARPC_REGISTER_WITH_NAME("%s", %s);' % (c['reg'], n))
    open(out + '/reg.cpp', 'w').write('\n'.join(g) + '\n')

    roots = list(SC) + DUR + ['std::string', 'std::vector<bool>', 'std::vector<int>', 'std::vector<std::string>', 'std::deque<double>',
             'std::list<short>', 'std::array<int, 3>', 'std::array<char, 5>', 'std::array<std::string, 2>', 'std::u16string',
             'std::set<int>', 'std::multiset<std::string>', 'std::unordered_set<int>', 'std::unordered_multiset<int>',
             'arpc::flat_set<std::string>', 'arpc::flat_multiset<short>', 'std::map<std::string, int>', 'std::multimap<int, std::string>',
             'std::unordered_map<std::string, int>', 'std::unordered_multimap<int, char>', 'arpc::flat_map<int, std::string>', 'arpc::flat_multimap<int, int>',
             'std::optional<std::optional<int>>', 'std::unique_ptr<int>', 'std::shared_ptr<int>', 'std::weak_ptr<int>',
             'std::vector<std::shared_ptr<std::string>>', 'std::vector<std::weak_ptr<std::string>>', 'std::unique_ptr<std::unique_ptr<char>>',
             'std::pair<std::shared_ptr<std::vector<int>>, std::weak_ptr<std::vector<int>>>', 'std::vector<std::vector<std::vector<int>>>',
             'std::map<int, std::shared_ptr<std::string>>']
    roots += [c['name'] for c in classes if c['kind'] != 'd']
    for c in dyn:
        roots += ['std::shared_ptr<%s>' % c['name'], 'std::unique_ptr<%s>' % c['name'], 'std::vector<std::shared_ptr<%s>>' % c['name'], 'std::weak_ptr<%s>' % c['name']]
    for c in cls:
        if c['ptr']: roots += ['std::shared_ptr<%s>' % c['name'], 'std::vector<std::shared_ptr<%s>>' % c['name']]
    dn = [c['name'] for c in dyn]
    for i in range(3):
        a, b, c3 = r.choice(dn), r.choice(dn), r.choice(dn)
        roots.append('std::tuple<std::shared_ptr<%s>, std::shared_ptr<%s>, std::weak_ptr<%s>>' % (a, b, c3))
    for _ in range(nroots): roots.append(ty(3, r.random() < .6))
    seen = set(); roots = [x for x in roots if not (x in seen or seen.add(x))]
    # Functions.
    fns = ['void()', 'void() const', 'int()', 'void(int)', 'void(int) const', 'int(const std::string&)', 'bool(char, signed char)']
    for _ in range(12):
        fns.append('%s(%s)%s' % (r.choice(['void', ty(1, False)]), ', '.join(ty(2, True) for _ in range(r.randint(0, 4))), r.choice(['', ' const'])))
    fns += [ty(r.randint(2, 5), r.random() < .7) for _ in range(nhash)]
    # Known not to be told apart from what's in them.
    fns += ['std::vector<std::vector<float>>', 'float', 'std::vector<std::set<float>>', 'std::set<std::vector<float>>']
    fns = sorted(set(fns))
    for t in range(ntu):
        s = ['#include "types.h"', 'void roots_%d() {' % t]
        if t == 0: s.append('  vf::add_view();')
        for i, x in enumerate(roots):
            if i % ntu == t: s.append('  vf::add_type<%s>("%s");' % (x, x))
        for i, x in enumerate(fns):
            if i % ntu == t: s.append('  vf::add_hash<%s>("%s");' % (x, x))
        s.append('}')
        open('%s/roots_%d.cpp' % (out, t), 'w').write('\n'.join(s) + '\n')
    open(out + '/all_roots.h', 'w').write('\n'.join('void roots_%d();' % t for t in range(ntu)) +
        '\ninline void all_roots() { ' + ' '.join('roots_%d();' % t for t in range(ntu)) + ' }\n')
main()
