# Regenerates /verif/MANIFEST.json.
import json
T={
'C01':'abstract interpretation (gated values, loop invariants): writer and reader compared as sequence functions',
'C02':'abstract interpretation: guard conditions of every creation in the tree walk',
'C03':'abstract interpretation: node chains written vs. read, all readers',
'C04':'error-flow analysis: no error-free return under a failed storage call',
'C05':'abstract interpretation: unreachability of every panicking construct; complete results',
'C06':'effect analysis with freshness of written nodes',
'C07':'effect analysis of reading operations',
'C08':'role (schema) analysis of class registration and class tests',
'C09':'effect and memory analysis of what a graph remembers',
'C10':'effect analysis over the call graph (who may use what)',
'C11':'abstract interpretation: success condition and result of GetRemark',
'C12':'abstract interpretation: exact effect and link-path analysis',
'C13':'abstract interpretation: exact effect analysis',
'C14':'abstract interpretation: exact effect, link-path and loop-exit analysis',
'C15':'abstract interpretation: exact effect, link-path and loop-exit analysis',
'C16':'abstract interpretation: loop step and exit analysis of the rendering',
'C17':'typestate of link lists: length known before an element is used',
'C18':'ordering analysis of writes (publication after completion)',
'C19':'abstract interpretation: split and empty-part conditions',
'C20':'abstract interpretation: value of both bits for every order',
'C21':'role (schema) analysis of every link and reference call',
'C24':'error-flow and effect analysis: no write reachable under a failed storage call',
'C25':'termination analysis of loops and recursion: bounded counts, link walks, no unchanged turn',
}
NOTE={
'C01':'Decides the induction cases of the round trip (split, each step of the walk, links, inverse walk) for all texts and stores; the induction over the number of parts is argued on paper. ',
'C18':'Decides order of writes within an operation, for every path; two findings are on record. ',
'C10':'Decides absence of ambient dependences in everything reachable from the public operations. ',
}
common='Sound for all inputs, storage answers and failures under the stated assumptions on the storage (links are sets, listed oldest first, fresh nodes from Create) and on go/ssa; constructs the interpreter does not understand are reported as UNDECIDED in output and evidence and are not claimed. Trusts the analyser in /verif/sa and its table of the layout.'
m=dict(version=1,setup_cmd='./check.sh --build',checks=[dict(property=p,quick_cmd='./check.sh '+p,thorough_cmd='./check.sh '+p,technique='static analysis: '+t,level='other',level_note=NOTE.get(p,'')+common) for p,t in T.items()],
 not_applicable=[
  dict(property='C22',reason='The library has no rollback and the storage no transactions: an operation that fails half-way leaves nodes behind by design (only harmless ones, see C18). The property does not hold of the system as designed, so there is nothing to check beyond C18.'),
  dict(property='C23',reason='The library takes no locks and the abstract storage promises no atomicity across calls (look up, then create), so the property is not offered by the system; whether interleavings of storage calls are linearizable is a question about histories that no static rule here decides.'),
 ])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
