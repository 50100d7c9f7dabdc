#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the marker comments) from properties.jsonl, specs.py and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
OR = dict(P01='greedy: concatenation of get(id)', P02='weighted: concatenation of get(id)', P03='greedy: linear scan of all v-grams at each position',
 P04='excl: linear scan over allowed v-grams', P05='misc: lexicographic comparison, linear scan', P06='misc: quadratic scan for the longest proper prefix',
 P07='greedy: before/after snapshots', P08='weighted: forward dynamic programme over all segmentations, tolerance 1e-9', P09='misc: before/after snapshots of both',
 P10='stat: ghost counters', P11='stat: same list permuted; likelihood of the parse against the optimum', P12='stat: entropy formula on freq()',
 P13='stat: threshold with a dead zone of 1e-6', P14='builder: old dictionary and training data', P15='builder: old dictionary, declared size, symbols seen',
 P16='builder: previous value', P17='builder: ghost list of sequences accepted since the last rebuild', P18='builder: second builder',
 P19='history: consistency conditions, memory model', P20='coder: order of first appearance', P21='token: table of tokens and codes',
 P22='token: character classes written out', P23='token: splitting loop', P24='token: fresh tokenizer fed one by one', P25='iface: symbol counts of the training data',
 P26='iface: ghost list of symbols', P27='iface: known part of the input', P28='iface: the original model', P29='iface: the original model', P30='iface: the original model',
 P31='iface: normalised text restricted to known characters', P32='iface: the same', P33='iface: digits written out', P34='misc: digits written out',
 P35='misc: order of first appearance', P36='misc: equality of the sequences', P37='model: the documented file layout (docs/source/save.rst)',
 P38='model: all data seen by then, including symbols new since the last update', P39='model: the uninterrupted run', P40='model: the second model alone',
 P41='model: before/after snapshots', P42='model: forward dynamic programme over alphabet() and freqs()', P43='builder, model: length of the parse of the repeated sequence, declared size')
def table_props():
    r = ['| id | property | harness: oracle | bounds |', '|---|---|---|---|']
    for k, p in props.items():
        if k not in specs.SPECS: continue
        r.append('| %s | %s | %s | %s |' % (k, p['title'], OR[k], specs.SPECS[k]['bounds'].replace('|', '/')))
    return '\n'.join(r)
def table_seeds():
    r = ['| seed | caught by | needs |', '|---|---|---|']; L = []
    for d in os.listdir(V + '/seeded'):
        m = json.load(open(V + '/seeded/' + d + '/meta.json')); L.append((m['property'], d, m['needs']))
    return '\n'.join(r + ['| %s | %s | %s |' % (d, p, n) for p, d, n in sorted(L)])
t = open(V + '/DESIGN.md').read()
for name, f in (('properties', table_props), ('seeds', table_seeds)):
    t, n = re.subn(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + f() + '\n' + m.group(2), t, flags=re.S); assert n == 1, name
open(V + '/DESIGN.md', 'w').write(t)
