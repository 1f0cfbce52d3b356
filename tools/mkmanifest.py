#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import checks
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
NA={'C25':'Whether a header compiles as the only include of a translation unit is a fact about the preprocessor and compiler: it has no state, no transitions and no runs, so a TLA+ specification has nothing to decide (compiling the harness would be a different technique). Two genuine defects found while reading are repaired in /repo (see DESIGN.md).'}
NOTE='Exhaustive model checking of the specification within small constants; the code is bound by trace validation: every recorded call of the driven executions (TLC-enumerated requests in every abstract state, plus seeded random histories) must be a step of the specification. Says nothing about executions not driven; trusts TLC, the drivers in harness/ and the two compilers.'
TECH='TLA+ specification checked with TLC; TLC-generated and random request histories replayed into the real code and every recorded step validated against the specification with TLC'
SPECS=dict(C01='PtlSeq MCSeq StepSeq TrSeq PtlHuge MCHuge TrHuge',C02='PtlSeq MCSeq StepSeq TrSeq PtlTree MCTree StepTree TrTree',C03='PtlSeq PtlBuffer MCSeq StepSeq TrSeq PtlHuge MCHuge TrHuge',C04='PtlSeq MCSeq StepSeq TrSeq PtlHuge MCHuge TrHuge PtlTree MCTree StepTree TrTree',C05='PtlSeq PtlBuffer MCSeq StepSeq TrSeq PtlHuge MCHuge TrHuge',
 C06='PtlLife PtlSeq PtlSum MCSeq MCSum StepSeq StepSum TrSeq TrSum PtlTree MCTree StepTree TrTree',C07='PtlSeq PtlSum MCSeq MCSum StepSeq StepSum TrSeq TrSum',C08='PtlSeq MCSeq TrSeq',C09='PtlHeap StepStorage MCSeq MCSum TrSeq TrSum',
 C10='PtlLayout MCLayout TrSeq TrSum TrBits TrView TrRef TrCall TrAgg',C11='PtlSeq PtlSum PtlBits PtlAgg StepStorage StepSum TrSeq TrSum TrBits TrAgg PtlTree MCTree StepTree TrTree',C12='PtlSum MCSum StepSum TrSum PtlTree MCTree StepTree TrTree',C13='PtlSum MCSum StepSum TrSum PtlTree MCTree StepTree TrTree',C14='PtlSum PtlRef MCSum MCRef TrSum TrRef',
 C15='PtlBits MCBits StepBits TrBits PtlHuge MCHuge TrHuge',C16='PtlBits PtlStream MCBits MCStream TrBits TrStream',C17='PtlOrder PtlAgg MCCmp MCAgg TrCmp TrAgg',C18='PtlView MCView TrView PtlHuge MCHuge TrHuge',C19='PtlRef MCRef TrRef',C20='PtlCall MCCall TrCall',
 C21='PtlSeq PtlSum PtlBits PtlView PtlRef PtlAgg and their Tr modules, PtlHuge MCHuge TrHuge',C22='PtlIter MCIter TrIter PtlHuge MCHuge TrHuge',C23='PtlAgg MCAgg TrAgg PtlHuge MCHuge TrHuge',C24='PtlShare MCShare TrShare')
m=dict(version=1,setup_cmd='python3 tools/setup.py',checks=[],not_applicable=[])
for p in props:
    if p in checks.ALL:
        m['checks'].append(dict(property=p,quick_cmd='python3 tools/checks.py %s'%p,thorough_cmd='VERIF_TIER=thorough python3 tools/checks.py %s'%p,technique=TECH+' (spec/: '+SPECS[p]+')',level='model_checking',level_note=NOTE))
    else: m['not_applicable'].append(dict(property=p,reason=NA.get(p,'no check yet (work in progress)')))
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']),'checks')
