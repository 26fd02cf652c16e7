# rewrites the section 6 of DESIGN.md from the planted bugs
import json,os
d='/verif/seeded'
out=['## 6. Planted bugs, and which checks catch them','',
'Each one breaks its property, builds, passes the stable tests, and has a demonstration. All are caught by the quick check of their property',
'(seed 1); the other checks were not run against them. Those marked (*) were first missed, and the check was strengthened:',
'',
'* F05-semi-closed, F05-und: fonts near each other (all objects but one equal) and undetermined languages were added to the inputs of F05-F07.',
'* F15-default-langs, P18: processes are now started cold (24 of them), and the concurrent run comes before the sequential one in half of the cases.',
'* P21-ink-top: the layouts of P08-P21 now have lines which overlap or go up (negative spacing, line spacing under 0.5).',
'* P08-wide-space: the fonts of P08-P21 now have a space five times wider than the others. This showed that such a space at the very end of a paragraph is collapsed, although narrower ones are not: same as C, accepted.',
'* P16-right-runs, P22-tight-lines came from mutants which survived the other checks; P16 and P22 were written for them.',
'',
'| change | property | what it needs |','| --- | --- | --- |']
star={'F05-semi-closed','F05-und','F15-default-langs','P21-ink-top','P08-wide-space'}
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json'))
    out.append(f"| {i}{' (*)' if i in star else ''} | {m['property']} | {m['needs']} |")
out+=['','**Mutants.** Besides, single-token mutants of every package (operators, constants, conditions, deleted statements) were run against all the checks of',
'the package with a tenth of the quick budget: fribidi (survivors all equivalent), pango (75 mutants) and fontconfig. The survivors examined were equivalent, in dead code',
'(valueEqual, the generator of family_mapping.go), in logs and limits, or led to the additions above and to F16 (names of locales).','']
s=open('/verif/DESIGN.md').read()
i=s.find('## 6. ')
s=(s if i<0 else s[:i]).rstrip()+'\n\n'+'\n'.join(out)
open('/verif/DESIGN.md','w').write(s)
