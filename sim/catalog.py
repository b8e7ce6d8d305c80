"""The request universe: every kind of request over the whole documented parameter range, with a measured
cost estimate per truncation (costs.json, milliseconds) used only to keep the sampled requests affordable."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
COST = json.load(open(os.path.join(HERE, 'costs.json')))

DIMS = {'fcc_tex': [6, 6, 6, 6], 'fcc_py': [6, 6, 6, 6], 'zhz_tex': [6, 6, 6], 'eT_tex': [6, 6, 1, 8, 6],
        'eT_py': [6, 6, 1, 8, 6]}
KIND_TYPE = {'fcc_tex': 'fcc', 'fcc_py': 'fcc', 'zhz_tex': 'zhz', 'eT_tex': 'eTz', 'eT_py': 'eTz'}
SIMPLE_MAX = {'gw': 11, 'ew': 3, 'w': 11, 'dt': 6, 'res': 9}
KEYS = {
    'zhz': ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'omega_max_order'],
    'fcc': ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 's_taylor_max_order', 'omega_max_order'],
    'eTz': ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'maximum_T_rank', 'eT_taylor_max_order',
            'omega_max_order'],
}
MAXIMA = {'maximum_hamiltonian_rank': 6, 'maximum_coupled_cluster_rank': 6, 's_taylor_max_order': 6,
          'omega_max_order': 6, 'maximum_T_rank': 1, 'eT_taylor_max_order': 8}


def rkey(r):
    return json.dumps(r, sort_keys=True, separators=(',', ':'))


def cost(r):
    """estimated milliseconds (None: not affordable / unknown)"""
    k = r['k']
    if r.get('tmut') or k in SIMPLE_MAX and not isinstance(r['n'], int):
        return 5
    if k in KIND_TYPE:
        t = ''.join(map(str, r['t']))
        if k == 'fcc_tex':
            key = 'ft%d:%s' % (r.get('gs', True), t)
        elif k == 'fcc_py':
            key = 'fp%d:%s' % (r.get('gs', True), t)
        elif k == 'zhz_tex':
            key = 'z:%s' % t
        else:
            key = '%s%s:%s' % ('et' if k == 'eT_tex' else 'ep', r.get('side', 'RHS')[0], t)
        return COST.get(key)
    if k in ('glue_tex', 'glue_py'):
        inner = glue_inner(r)
        return 5 if inner is None else cost(inner)
    if k == 'res':
        return COST.get('res:%d,%d' % (r['n'], r['h']))
    return COST.get('%s:%d' % (k, r['n']))


def glue_inner(r):
    """the generator request a _generate_latex/_generate_python call stands for (None: refused)"""
    kw = {'only_ground_state': True, 'remove_f_terms': False, 'ansatz': 'full cc', 'lhs_rhs': 'RHS'}
    kw.update(r.get('kw', {}))
    a = {'full cc': 'fcc', 'z_t ansatz': 'zhz', 'eT_z_t ansatz': 'eTz'}.get(kw['ansatz'])
    if a != r['ty']:
        return None
    if r['k'] == 'glue_tex':
        k = {'fcc': 'fcc_tex', 'zhz': 'zhz_tex', 'eTz': 'eT_tex'}[a]
    else:
        k = {'fcc': 'fcc_py', 'zhz': None, 'eTz': 'eT_py'}[a]
    if k is None:
        return None
    q = {'k': k, 't': r['t'], 'gs': kw['only_ground_state']}
    if k != 'fcc_py':
        q['rf'] = kw['remove_f_terms']
    if k.startswith('eT'):
        q['side'] = kw['lhs_rhs']
    if r.get('tmut'):
        q['tmut'] = r['tmut']
    return q


def doc_name(r):
    """the file name README documents for a driver/glue request"""
    kw = {'only_ground_state': True, 'remove_f_terms': False, 'ansatz': 'full cc', 'lhs_rhs': 'RHS'}
    kw.update(r.get('kw', {}))
    nf = '_no_f_terms' if kw['remove_f_terms'] else ''
    gs = 'ground_state_' if kw['only_ground_state'] else ''
    rhs = kw['lhs_rhs'] == 'RHS'
    a = kw['ansatz']
    if r['k'] == 'glue_tex':
        mid = {'full cc': 'full_cc', 'z_t ansatz': 'z_t', 'eT_z_t ansatz': 'eT_z_t'}[a]
        return '%s%s_%s%s.tex' % (gs, mid, 'symmetric_equations' if rhs else 'special_LHS_terms', nf)
    if a == 'full cc':
        return '%sfull_cc_%s%s.py' % (gs, 'equations' if rhs else 'special_LHS_equations', nf)
    h, z, t, e, p = r['t']
    return 'eT_zhz_eqs_%s_H(%d)_P(%d)_T(%d)_exp(%d)_Z(%d).py' % (kw['lhs_rhs'], h, p, t, e, z)


def cli_argv(r, src='t'):
    """command line for a glue request"""
    kw = r.get('kw', {})
    a = []
    if src == 't':
        a += ['-t'] + [str(x) for x in r['t']]
    else:
        a += ['-p', src]
    if kw.get('ansatz') and r.get('explicit_ansatz'):
        a += ['-a', kw['ansatz']]
    if kw.get('only_ground_state') is False:
        a += ['-es']
    if kw.get('remove_f_terms'):
        a += ['-rf', '1']
    if kw.get('lhs_rhs') == 'LHS':
        a += ['-lhs']
    if r['k'] == 'glue_py':
        a += ['-c']
    return a


# targets of requests that name none
DEFAULT_PATH = {'gw': './ground_state_w_equations.tex', 'ew': './thermal_w_equations.tex', 'w': './w_operator_equations.py',
                'dt': './dt_amplitude_equations.py', 'res': './residual_equations.py'}

ANSATZ = {'fcc': 'full cc', 'zhz': 'z_t ansatz', 'eTz': 'eT_z_t ansatz'}


class Gen:
    """draws requests with a given PRNG"""

    def __init__(self, rng, cap=150):
        self.r = rng
        self.cap = cap

    def trunc(self, k):
        dims = DIMS[k]
        small = self.r.random() < 0.45
        return [self.r.randint(1, min(m, 3) if small else m) for m in dims]

    def ok_cost(self, r, cap=None):
        c = cost(r)
        return c is not None and c <= (cap or self.cap)

    def big(self, cap=None):
        """any request of the generators within the cost cap"""
        for _ in range(200):
            k = self.r.choices(['fcc_tex', 'fcc_py', 'zhz_tex', 'eT_tex', 'eT_py'], [5, 5, 2, 5, 5])[0]
            r = {'k': k, 't': self.trunc(k), 'gs': True}
            if k in ('fcc_tex', 'fcc_py'):
                r['gs'] = self.r.random() < 0.5
            elif self.r.random() < 0.05:
                r['gs'] = False
            if k != 'fcc_py':
                r['rf'] = self.r.random() < 0.35
            if k.startswith('eT'):
                r['side'] = self.r.choice(['RHS', 'LHS'])
            if self.ok_cost(r, cap):
                return r
        return {'k': 'w', 'n': 2}

    def simple(self):
        k = self.r.choice(['gw', 'ew', 'w', 'dt', 'res', 'res'])
        if k == 'res':
            return {'k': k, 'n': self.r.randint(0, 9), 'h': self.r.choice([0, 1, 2, 2, 1])}
        return {'k': k, 'n': self.r.randint(1, SIMPLE_MAX[k])}

    def glue(self, cap=None):
        for _ in range(200):
            b = self.big(cap)
            if b['k'] not in KIND_TYPE:
                continue
            ty = KIND_TYPE[b['k']]
            kw = {'ansatz': ANSATZ[ty], 'only_ground_state': b['gs'], 'remove_f_terms': b.get('rf', False) if 'rf' in b else self.r.random() < 0.35,
                  'lhs_rhs': b.get('side') or self.r.choice(['RHS', 'RHS', 'LHS'])}
            if self.r.random() < 0.3:      # leave options at their defaults
                dflt = {'only_ground_state': True, 'remove_f_terms': False, 'lhs_rhs': 'RHS'}
                for o in dflt:
                    if kw[o] == dflt[o] and self.r.random() < 0.7:
                        del kw[o]
                if kw == {'ansatz': 'full cc'} and self.r.random() < 0.5:
                    kw = {}
            g = {'k': 'glue_tex' if b['k'].endswith('tex') else 'glue_py', 'ty': ty, 't': b['t'], 'kw': kw}
            if self.ok_cost(g, cap):
                return g
        return {'k': 'glue_tex', 'ty': 'fcc', 't': [1, 1, 1, 1], 'kw': {'ansatz': 'full cc'}}

    def of_kind(self, k, cap=None):
        """a request of one given kind"""
        for _ in range(300):
            if k == 'res':
                return {'k': k, 'n': self.r.randint(0, 6), 'h': self.r.choice([0, 1, 2, 2, 1])}
            if k in SIMPLE_MAX:
                return {'k': k, 'n': self.r.randint(1, min(6, SIMPLE_MAX[k]))}
            r = self.glue(cap) if k.startswith('glue') else self.big(cap)
            if r['k'] == k:
                return r
        return {'k': 'w', 'n': 2}

    def good(self, cap=None, glue=0.1):
        x = self.r.random()
        if x < 0.3:
            return self.simple()
        if x < 0.3 + glue:
            return self.glue(cap)
        return self.big(cap)

    def bad(self):
        """a request that is refused or fails inside"""
        x = self.r.random()
        if self.r.random() < 0.12:
            return self.bad_glue()
        if x < 0.15:
            return self.r.choice([{'k': 'res', 'n': self.r.randint(1, 6), 'h': self.r.choice([3, 4])},
                                  {'k': 'dt', 'n': self.r.randint(7, 11)},
                                  {'k': self.r.choice(['gw', 'ew', 'w', 'dt']), 'n': self.r.choice([0, -1, 'x', None, 2.5])},
                                  {'k': 'res', 'n': self.r.choice([-1, 'x', None, 2]), 'h': self.r.choice([2, 'x', None])}])
        if x < 0.45:      # deep failures at the edge of the supported range
            for _ in range(100):
                k = self.r.choice(['fcc_py', 'eT_py', 'eT_py'])
                t = self.trunc(k)
                t[0 if k == 'fcc_py' or self.r.random() < 0.5 else 1] = 6
                r = {'k': k, 't': t, 'gs': True}
                if k == 'eT_py':
                    r['rf'] = False
                    r['side'] = self.r.choice(['RHS', 'LHS'])
                if self.ok_cost(r):
                    return r
        if x < 0.6:
            k = self.r.choice(['zhz_tex', 'eT_tex', 'eT_py'])
            for _ in range(100):
                r = {'k': k, 't': self.trunc(k), 'gs': False, 'rf': False}
                if k != 'zhz_tex':
                    r['side'] = self.r.choice(['RHS', 'LHS'])
                if self.ok_cost(r, 40):
                    return r
        k = self.r.choice(['fcc_tex', 'fcc_py', 'eT_tex', 'eT_py', 'fcc_tex', 'eT_tex'])
        ty = KIND_TYPE[k]
        r = {'k': k, 't': [self.r.randint(1, 2) if m > 1 else 1 for m in DIMS[k]], 'gs': True}
        if k != 'fcc_py':
            r['rf'] = False
        if k.startswith('eT'):
            r['side'] = 'RHS'
        key = self.r.choice(KEYS[ty])
        y = self.r.random()
        if y < 0.5:
            r['tmut'] = [['set', key, self.r.choice([0, -1, MAXIMA[key] + 1, MAXIMA[key] + 3, 'x', None])]]
        elif y < 0.8:
            r['tmut'] = [['drop', key]]
        elif y < 0.9:
            r['tmut'] = [['extra', 'bogus_key', 1]]
        else:
            r['tmut'] = [['clear']]
        return r

    def bad_glue(self):
        """a front-end call that is refused: truncations of another ansatz, unknown ansatz, unsupported combination"""
        ty = self.r.choice(['fcc', 'zhz', 'eTz'])
        k = self.r.choice(['glue_tex', 'glue_py'])
        t = [self.r.randint(1, 2) if m > 1 else 1 for m in {'fcc': [2] * 4, 'zhz': [2] * 3, 'eTz': [2, 2, 1, 2, 2]}[ty]]
        kw = {'only_ground_state': self.r.random() < 0.7, 'remove_f_terms': self.r.random() < 0.3, 'lhs_rhs': self.r.choice(['RHS', 'LHS'])}
        x = self.r.random()
        if x < 0.35:
            kw['ansatz'] = self.r.choice([a for q, a in ANSATZ.items() if q != ty])
        elif x < 0.6:
            kw['ansatz'] = self.r.choice(['bogus', '', None, 'full_cc', 'z_t', 'FULL CC'])
        elif x < 0.85:
            k, ty, t, kw['ansatz'] = 'glue_py', 'zhz', t[:3] if ty != 'eTz' else [1, 2, 1], 'z_t ansatz'
        else:
            key = self.r.choice(KEYS[ty])
            kw['ansatz'] = ANSATZ[ty]
            return {'k': k, 'ty': ty, 't': t, 'kw': kw, 'tmut': [self.r.choice([['set', key, self.r.choice([0, -1, 99, 'x'])], ['drop', key], ['extra', 'bogus_key', 1]])]}
        return {'k': k, 'ty': ty, 't': t, 'kw': kw}

    def related(self, r, cap=None):
        """a request differing from r in one aspect"""
        if not isinstance(r.get('n', 1), int) or not isinstance(r.get('h', 1), int):
            return self.good(cap)
        if r['k'] not in KIND_TYPE:
            if r['k'].startswith('glue'):
                for _ in range(40 if self.r.random() < 0.75 and not r.get('tmut') else 0):
                    q = json.loads(json.dumps(r))
                    y = self.r.random()
                    if y < 0.35:
                        q['kw']['remove_f_terms'] = not q['kw'].get('remove_f_terms', False)
                    elif y < 0.6:
                        q['kw']['lhs_rhs'] = 'LHS' if q['kw'].get('lhs_rhs', 'RHS') == 'RHS' else 'RHS'
                    elif y < 0.7 and q['ty'] == 'fcc':
                        q['kw']['only_ground_state'] = not q['kw'].get('only_ground_state', True)
                    elif y < 0.8:
                        q['k'] = 'glue_py' if q['k'] == 'glue_tex' else 'glue_tex'
                    else:
                        i = self.r.randrange(len(q['t']))
                        q['t'][i] = max(1, q['t'][i] + self.r.choice([-1, 1, 2]))
                    inner = glue_inner(q)
                    if inner is not None and cost(inner) is not None and self.ok_cost(q, cap):
                        return q
                return self.glue(cap)
            q = dict(r)
            q['n'] = max(1, min(SIMPLE_MAX[r['k']], r['n'] + self.r.choice([-1, 1, 2, -2])))
            if r['k'] == 'res' and self.r.random() < 0.5:
                q['h'] = self.r.choice([0, 1, 2])
            return q
        for _ in range(60):
            q = json.loads(json.dumps(r))
            q.pop('tmut', None)
            y = self.r.random()
            if y < 0.5:
                i = self.r.randrange(len(q['t']))
                q['t'][i] = max(1, min(DIMS[q['k']][i], q['t'][i] + self.r.choice([-1, 1, 2, -2, 3])))
            elif y < 0.75:
                f = self.r.choice([x for x in ('gs', 'rf', 'side') if x in q])
                if f == 'side':
                    q['side'] = 'LHS' if q['side'] == 'RHS' else 'RHS'
                elif f == 'gs':
                    if q['k'] in ('fcc_tex', 'fcc_py'):
                        q['gs'] = not q['gs']
                else:
                    q['rf'] = not q['rf']
            else:
                # same truncations, another generator
                k2 = {'fcc_tex': 'fcc_py', 'fcc_py': 'fcc_tex', 'eT_tex': 'eT_py', 'eT_py': 'eT_tex',
                      'zhz_tex': 'eT_tex'}[q['k']]
                if k2 == 'eT_tex' and q['k'] == 'zhz_tex':
                    h, c, p = q['t']
                    q = {'k': 'eT_tex', 't': [h, c, 1, self.r.randint(1, 3), p], 'gs': True, 'rf': q['rf'], 'side': 'RHS'}
                else:
                    q['k'] = k2
                    if k2 == 'fcc_py':
                        q.pop('rf', None)
                    else:
                        q.setdefault('rf', False)
            if q != r and self.ok_cost(q, cap):
                return q
        return self.good(cap)
