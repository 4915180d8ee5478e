import json
L={
"C01":"Samples definition sets, texts, pull schedules and hash orders; compares every token with an independent leftmost-longest tokeniser.",
"C02":"Samples patterns (nested and nullable quantifiers, classes, escapes) and texts under chosen hash orders; compares the matched length with an independent set-of-ends matcher.",
"C03":"Samples look-ahead/give-back histories over several lexers; checks text and position of every delivered token against the input alone.",
"C04":"Samples truncated and damaged texts and pulls past the end; checks that the end is exact and permanent.",
"C05":"Injects constructor panics at chosen calls; compares constructor calls and the stream after the panic with the undisturbed stream.",
}
import sys
extra=json.load(open('tools/notes.json')) if len(sys.argv)<2 else {}
L.update(extra)
checks=[]
for k in sorted(L):
    checks.append({"property":k,"quick_cmd":f"bash run.sh check {k} quick","thorough_cmd":f"bash run.sh check {k} thorough","evidence_file":f"evidence/{k}.json","technique":"deterministic simulation with fault injection","level":"exploration","level_note":L[k]})
m={"version":1,"setup_cmd":"bash run.sh build","checks":checks,
"not_applicable":[
{"property":"C17","reason":"Whether one pattern string is refused is a pure function of that string: no schedule, history, randomness, memory or caller code takes part, so there is nothing for a simulator to schedule or a fault to hit."},
{"property":"C18","reason":"The position printed with a pattern error is a pure function of the pattern string: there is nothing to schedule and no fault to inject."}],
"notes":"No hooks in /repo: all seams are public type parameters, the global allocator and the getrandom symbol. See DESIGN.md."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
