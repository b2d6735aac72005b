# Rewrites the table of planted changes in DESIGN.md.
import subprocess
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('| change | what it does'); j=s.index('\n\n',i)
s=s[:i]+subprocess.check_output(['python3','/verif/tools/table.py'],text=True).rstrip('\n')+s[j:]
open(p,'w').write(s)
