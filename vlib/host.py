"""C29: Go functions and values in scripts (spec/Host.tla, HostTrace.tla, HostMC.tla)."""


def differs(case, exp):
    o = case['obs']
    if o['r'] != 'ok':
        return ['out', 'args', 'ret']
    s = o['sts'][-1]
    bad = []
    if s['r'] != exp['r']:
        bad.append('out')
    if s['log'] != exp['log']:
        bad.append('args')
    if s['r'] == exp['r'] == 'ok' and (s['ret'] != exp['ret'] or s['dst'] != exp['ret']):
        bad.append('ret')
    return bad


def check(ctx):
    done = []
    for part in ('param', 'count', 'result', 'member'):
        wide = 0 if ctx.quick else 1
        pr = ctx.tlc('HostMC', env={'PART': part, 'WIDE': wide})
        ctx.compare('host', pr['R'], differs)
        done.append('%s: %d' % (part, len(pr['R'])))
        if ctx.violations and ctx.quick or ctx.enough():
            break
    ctx.notes['explored_calls'] = done
    for r in range(ctx.budget(2, 24)):
        if r > 0 and (ctx.left() < 100 or ctx.violations):
            break
        ctx.validate('host', 'HostTrace', ctx.gen('host', 2500, '', seed_off=9700 + r * 7), ['out', 'args', 'ret', 'imp'], batch=2500)


CHECKS = {'C29': check}
NOTES = {
    'C29': 'spec/Host.tla is the call of a Go function from a script as a machine: load the base, look up each member, gather and spread '
           'the arguments, check their number, convert each, call, convert each result, store. HostMC.tla explores, exhaustively, a '
           'parameter of every type (plain and variadic) with a value of every type (plain and spread), up to two parameters with up to '
           'two (thorough: four) arguments, results of every type and up to three of them, and every member name on values of every '
           'kind; in the model each outcome is compared with a contract written without steps, and each is replayed in the real engine. '
           'HostTrace.tla validates histories of statements on one engine: random functions made by reflection, objects with value and '
           'pointer methods, embedded fields, types called automatically, values with a Call method, modules, imports in and out of '
           'safe mode; observed are what every function received, the value of the statement and the variable assigned.',
}
ASSUME = {'C29': ['numbers are small enough to be exact in every numeric type', 'parameters that are not interfaces take only values of exactly their type, except float64']}
