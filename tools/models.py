"""Which TLC models and generators belong to which property."""

NOGEN = {'C01', 'C03', 'C34'}
# module: the properties it is checked for (environment: PROP, TIER, SEED)
MODELS = {
    'MC_Container': ['C01', 'C03'],
    'MC_Files': ['C34'],
    'MC_Vector': ['C06', 'C07', 'C08', 'C10'],
    'MC_Median': ['C22', 'C23'],
    'MC_Par': ['C09'],
    'Laws': ['C02', 'C05', 'C07'] + ['C%02d' % i for i in range(10, 34)] + ['C36'],
}


def jobs(prop, tier, seed):
    env = {'PROP': prop, 'TIER': tier, 'SEED': str(seed)}
    out = []
    if prop not in NOGEN:
        out.append(dict(name='Gen/' + prop, module='Gen.tla', cfg='Gen.cfg', env=env, args=['-workers', '1'], mem='6g' if tier == 'thorough' else '2g'))
    for m, props in MODELS.items():
        if prop in props:
            out.append(dict(name='%s/%s' % (m, prop), module=m + '.tla', cfg=m + '.cfg', env=env, args=['-workers', '1'], mem='4g' if tier == 'thorough' else '2g'))
    return out
