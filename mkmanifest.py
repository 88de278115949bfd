#!/usr/bin/env python3
# Writes MANIFEST.json: python3 mkmanifest.py C01 C02 ...   (no args: all)
import json, sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=sys.argv[1:] or [p['id'] for p in props]
TECH={
'C01':('runtime monitor: generated type trees, parsed-back source compared with an independent model','random and enumerated constructor trees, 64- and 32-bit builds; trusts go/parser and the harness model'),
'C02':('online trace monitor of an import set against a reference state machine','random histories of registrations and look-ups over hostile paths and names; every answer and the full import list are checked after every step'),
'C03':('runtime monitor: every qualification compared with an independent rewriting, caller-held values fingerprinted before and after','random types, signatures and symbols in random import states'),
'C04':('runtime monitor: generated programs type-checked with go/types, every reference resolved and compared with what was meant','random file models over generated and real packages; trusts go/types; models whose own identifiers shadow package names are excluded'),
'C05':('runtime monitor: parsed-back declarations compared with an independent model','random file models over all element kinds; trusts go/parser'),
'C06':('runtime monitor: rendered code compared byte for byte with independently formatted pieces','random code pieces, verbs, arguments and templates; trusts fmt, text/template and go/format'),
'C07':('history monitor: bytes of every rendering in random histories compared with a rendering in isolation; caller-held values fingerprinted','random histories of rendering files that share values'),
'C08':('Go race detector plus byte comparison with sequential runs, under concurrent rendering with injected yields','random schedules of goroutines over shared inputs; the detector only sees accesses that were executed'),
'C09':('runtime monitor in default, race+checkptr, purego and 32-bit builds: result compared structurally, original fingerprinted','random acyclic values over all composite kinds, hidden fields included; cyclic data is a known finding'),
'C10':('runtime monitor: converted types compared structurally and by types.Identical after compiling their text','constructed types and every type of a set of real packages; trusts go/types'),
'C11':('runtime monitor: converted types compared structurally and compiled back','types built with reflect and static types; trusts reflect and go/types'),
'C12':('fault injection with a recording writer factory and an oracle over the recorded event log','random and enumerated placements of failures in open, render, write and close'),
'C13':('runtime monitor of directory trees before and after, with injected file-system failures, in scratch directories','random files, earlier contents, GOPATH values and blocked paths'),
'C14':('runtime monitor over every Unicode character in first position','exhaustive over first characters with sampled continuations'),
'C15':('history monitor: self references of elements after every build, add, move and render step against a model','random histories over every element kind'),
'C16':('runtime monitor: accessors compared with constructor arguments, again after hostile use; constructor rejection cases','random constructor arguments and uses, 64- and 32-bit builds'),
'C17':('runtime monitor: comments of the parsed output compared with an independent model; code compared with comments removed','random comment texts on all element kinds; trusts go/parser and gofmt\'s documented comment normalisation'),
}
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[],
 'notes':'No hooks: every property is observable at the exported API, so checks build /repo as it is. Known findings and fixed defects are in known_findings.txt.'}
for p in props:
    i=p['id']
    if i in claimed:
        t,n=TECH[i]
        m['checks'].append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}','technique':t,'level':'fault_enumeration' if i=='C12x' else 'exploration','level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':'monitor still being written'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
