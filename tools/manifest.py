#!/usr/bin/env python3
"""writes MANIFEST.json from the list of implemented checks"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'doc': 'TLA+ document automaton (XmlDoc.tla): documents generated by TLC as its transition cover, plus random ones, run on the real parser; every observation validated by TLC against the automaton (XmlTrace.tla)',
 'unit': 'TLA+ component specification: TLC explores it and generates operation histories, the real component runs them, TLC validates the observations (UnitTrace.tla)',
}
T = {}
for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C22 C24'.split(): T[p] = TECH['doc']
for p in 'C14 C16 C17 C18 C19'.split(): T[p] = TECH['unit']
T['C10'] = 'TLA+ document automaton with size limits; run-length encoded documents around every limit generated by TLC (LimitGen.tla) and judged by TLC (XmlTrace.tla)'
T['C11'] = 'TLA+ document automaton: TLC enumerates windows of buffers (WinGen.tla, with the lemma that only the window matters), observations judged by TLC'
T['C12'] = 'TLA+ specification of the location cache (LocCache.tla) over all small trees (TreeGen.tla) and large random ones; recorded caches judged by TLC'
T['C13'] = 'TLA+ specification of navigation as a cursor in a tree (NavTree.tla); all small trees x walks and long random walks, recorded moves judged by TLC'
T['C15'] = 'TLA+ specification of string values (XmlString.tla) over all sequences of content pieces (StrGen.tla); recorded strings judged by TLC'
T['C20'] = 'TLA+ tables of the XML productions (XmlChars.tla); the membership of every code point recorded from the code and compared by TLC, and documents with boundary code points judged by TLC'
T['C21'] = 'TLA+ interleaving model (Sched.tla): schedules generated by TLC replayed on real parsers, every participant judged by TLC as if alone; race detector runs of the same operations'
T['C23'] = 'TLA+ model of constructors and options (Config.tla): TLC generates option histories and arguments, the recorded results are judged by TLC'
T['C25'] = 'TLA+ model of error chains (ErrChain.tla): TLC generates all chains of a few errors, the real ones are judged by TLC'
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif', 'source_commits': ['623ec2c8fe48274573b5d7786831d3e1a287f352']},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'technique': T[i], 'level': 'model_checking',
                            'level_note': 'bounded: the specification is explored by TLC within the bounds of DESIGN.md, and the code is bound to it by conformance on generated and random inputs, not by proof'})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
