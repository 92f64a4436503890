"""B14: the containers behave as sequences, maps and sets, and own their elements."""
from run import Direct

RULE = ('Random histories of all operations of the dynamic array, the dictionary (all key types, few and many buckets, colliding keys) and the set run on the real '
        'code next to a plain model; after every operation contents, sizes, iteration and exactly which elements were destroyed are compared, under ASan/UBSan and with leak '
        'detection at exit. Containers of more than 65536 elements are included. Non-trivial: the history had at least one operation (all have).')
ASSUMPTIONS = ['containers are created with capacity at least 1 and insertions are at positions up to the size',
               'no element is added or removed from inside an iteration']


def stage(kind, count, ops):
    def fn(rng, ctx):
        seed = rng.getrandbits(40)
        args = ['vc', kind, str(seed), str(count), str(ops)]
        rc, out, err = ctx.tool(args, timeout=300, env={'ASAN_OPTIONS': 'detect_leaks=1:exitcode=99:allocator_may_return_null=1'})
        o = out.decode('latin-1')
        r = dict(evaluations=count, keys=['%s/%d' % (kind, seed + i) for i in range(count)], violations=[], notes={}, samples=[])
        if rc == 0 and o.startswith('OK'):
            a, b = map(int, o.split()[1:3])
            r['notes'] = {'operations': a, 'comparisons': b}
            r['samples'] = [dict(command=' '.join(args), output=o.strip())]
        else:
            viol = [l for l in o.split('\n') if l.startswith('VIOL')]
            msg = viol[0] if viol else 'rc=%s %s' % (rc, err[:2500])
            if rc == 2:
                raise RuntimeError('harness failure ' + msg)
            r['violations'] = [dict(msg='%s: %s' % (kind, msg), replay='ASAN_OPTIONS=detect_leaks=1 $D/' + ' '.join(args))]
        return r
    return fn


STAGES = [Direct('very large', stage('large', 2, 1), 4, 40), Direct('arrays', stage('darray', 60, 400), 64, 600),
          Direct('dictionaries', stage('dict', 100, 600), 64, 600),
          Direct('sets', stage('set', 150, 400), 32, 300),
          Direct('long histories', stage('dict', 4, 20000), 12, 100)]
