# What decides each property: contract units (Verus), Kani contract harnesses, bounded driver groups.
#   units : names of proofs/<unit>.rs whose obligations carry the property
#   kani  : names of Kani harness groups
#   groups: bounded differential driver groups (stand-ins and counterexample search)
#   avx2  : run the groups on the AVX2 build as well
#   extra : names of further bounded harnesses in lib/
P = {
    'P01': dict(units=['format'], groups='hexdump', avx2=True),
    'P02': dict(units=['format', 'parser', 'streambuf', 'text', 'roundtrip'], groups='roundtrip,text', avx2=True),
    'P03': dict(units=['parser'], groups='malformed,text,patch,guide', avx2=True),
    'P04': dict(units=['parser', 'format'], groups='hexdump,text,malformed', avx2=True),
    'P05': dict(units=['streambuf', 'raw', 'cat', 'zip', 'clip', 'cut', 'patch', 'text', 'parser'], groups='chunk'),
    'P06': dict(units=['streambuf', 'cat'], groups='cat'),
    'P07': dict(units=['streambuf', 'raw', 'zip'], groups='zip'),
    'P08': dict(units=['streambuf', 'mapper', 'cut', 'mapstr'], groups='cut'),
    'P09': dict(units=['streambuf', 'clip'], groups='pad'),
    'P10': dict(units=['streambuf', 'parser', 'patch'], groups='patch'),
    'P11': dict(units=['streambuf', 'parser', 'text'], groups='text'),
    'P12': dict(units=['stride', 'mapstr', 'eval'], groups='width'),
    'P13': dict(units=['parser', 'exact'], groups='find'),
    'P14': dict(units=['eval', 'walk'], groups='walk'),
    'P15': dict(units=['mapper', 'range', 'mapstr'], groups='slice'),
    'P16': dict(units=['parser', 'guided'], groups='guide'),
    'P17': dict(units=['regex'], groups='regex'),
    'P18': dict(units=['bridge', 'mapstr'], groups='invert'),
    'P19': dict(units=['extend', 'mapstr'], groups='extend'),
    'P20': dict(units=['merge'], groups='merge'),
    'P21': dict(units=['mapper', 'filter', 'mapstr'], groups='lines'),
    'P22': dict(units=['format', 'scatter'], groups='output'),
    'P23': dict(groups='template,output'),
    'P24': dict(groups='patchback', extra=['bigpipe']),
    'P25': dict(units=['eval'], groups='expr'),
    'P26': dict(units=['mapper', 'mapstr'], groups='range,slice,extend'),
    'P27': dict(groups='order', extra=['inplace']),
    'P28': dict(units=['pipeline'], groups='order'),
    'P29': dict(units=['zip', 'format', 'raw'], groups='zip,hexdump,text'),
}

BOUNDED = 'the bounded driver compares the real pipeline with a whole-array oracle on random command lines, inputs and read schedules'


def level(pid):
    return P[pid].get('level', 'proof' if P[pid].get('units') or P[pid].get('kani') else 'exploration')


def note(pid):
    return P[pid].get('note', BOUNDED)


def assumptions(pid):
    return P[pid].get('assume', [])

NA = {}


def technique(pid):
    c = P[pid]
    t = []
    if c.get('units'):
        t.append('Verus contracts on extracted functions (%s)' % ', '.join(c['units']))
    if c.get('kani'):
        t.append('Kani contracts')
    t.append('bounded differential driver as stand-in and counterexample search')
    return '; '.join(t)


def level_note(pid):
    return P[pid].get('level_note', note(pid))
