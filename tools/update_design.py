import subprocess,re
p='/verif/DESIGN.md'; s=open(p).read()
t=subprocess.check_output(['python3','/verif/tools/seed_table.py'],text=True)
h='| seed | caught by (quick) | breaks | note |\n|---|---|---|---|\n'
s=re.sub(r'<!-- tools/seed_table.py -->.*?<!-- end -->',lambda m:'<!-- tools/seed_table.py -->\n'+h+t+'<!-- end -->',s,flags=re.S)
sec='''
## Behaviour-preserving changes

`tools/refactor/r1.py` to `r11.py` are refactorings of all parts of xtra (helpers extracted or inlined, loops rewritten,
match for if, statements reordered, data kept in another shape, the macro's output written differently). Each compiles
and passes the tests; the checks of the properties whose code they touch (in the order of writing: C02 to C24 for r1 to
r7; C05, C12, C13, C18, C21, C22, C24 to C28 for r8) stay quiet with them.
'''
if '## Behaviour-preserving' not in s: s=s.rstrip('\n')+'\n'+sec
open(p,'w').write(s)
