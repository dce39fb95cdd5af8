#!/usr/bin/env python3
"""Regenerates known_findings.json from the fix commits (property assignment kept here)."""
import json
FIXED = [l.split('|') for l in '''a856383|P02|a redefinition that only adds or drops tokens at the end was not reported
1d39993|P03|a define whose token source failed half-way lost the old definition
5e45a10|P10|too few arguments for a variadic macro panicked
857fd26|P09|a comment between parameters shifted the index of `__VA_ARGS__`
d3285ea|P08|commas inside of brackets and braces did not split macro arguments
f7a6b30|P09|operands of `##` were expanded
023b418|P09|`#` and `##` which came from an argument acted as operators
8f74e2e|P10|pasting tokens which form no token panicked
8e925a5|P08|tokens which were already scanned were scanned for macro calls again
2a4335f|P09|operands of a `##` kept for an argument were expanded
26c2448|P09|`#` of a variable argument passed on to another macro was lost
3868459|P10|a macro was expanded in its own replacement through an argument, without end
530bce6|P09|pasting to a string or character literal was accepted
4cef1eb|P09|`##` at the start or end of a macro next to an argument was accepted
46a52f6|P07|generating twice gave different code, and a failed attempt changed later ones
b12a48e|P11|division by zero in a constant expression panicked
fb6dfed|P11|an argument index out of range panicked
e5ed570|P11|stringification of `__VA_ARGS__` panicked
907c03c|P13|unusable types from the context were replaced by other types, or panicked
77466d1|P14|identifiers which are keywords in Rust were generated unescaped or panicked
f83d323|P15|inputs of inline assembly with matching constraints were dropped, or panicked
c5b6981|P14|unary plus was generated
82b61c9|P14|member names were resolved as enum variants
d4b9004|P14|enum variants which are operator expressions were generated without parentheses
76633a2|P14|statements which start with a block were generated so that Rust ended them early
67db67d|P14|a cast before `<` or `<<` was generated without parentheses
cd68f33|P11|parentheses were parsed repeatedly, exponential in their nesting
2b3a535|P11|code for array accesses was generated repeatedly, exponential in their nesting
92115db|P14|an argument followed by an operator was taken as a type
F1|P14|arguments used as a type were declared as `expr` fragments
F2|P14|assignments to values, increments of values
F3|P14|arguments used as the name of a declaration were declared as `expr` fragments
F4|P14|duplicate semicolons in else branches
F5|P14|identifiers reserved in Rust; `__LINE__` as an operand
F6|P13|the type of a value was invented from one side of an operation if that of the other side was unknown or contradictory
F7|P11|a type of `wchar_t` that became unusable between two questions panicked
F8|P14|braces in assembly templates were not escaped
F10|P13|a typed function was generated although a variable, function or type named by a concatenation is unknown
F9|P14|assembly templates mentioned operands that did not exist after an input with a matching constraint'''.split('\n')]
import subprocess
log = subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
def find(s): return [l.split()[0] for l in log if s in l][0]
sub = {'F1':'fragments for arguments','F2':'report assignments to values','F3':'fragments for the names','F4':'duplicate semicolons','F5':'identifiers which are reserved','F6':'do not infer a type from one side','F7':'of `wchar_t` can no','F8':'escape all braces','F9':'renumber assembly','F10':'name is put together'}
out = []
for h, p, w in FIXED:
    if h in sub: h = find(sub[h])
    out.append(dict(id=f'fix-{h}', property=p, what=f'fixed: property={p} {h} {w}', status='fixed'))
json.dump(out, open('/verif/known_findings.json','w'), indent=1)
