# usage: fx.py  -> rewrites "fixed" from git log + map
import json,subprocess
m={"0dc47c0":"P04","30524c0":"P22","3709e57":"P05","c2933a0":"P05","de54644":"P22","312ced2":"P01","20af820":"P23","d49de56":"P23","4ff2145":"P03","6129bb3":"P23","80e8e33":"P03","330f57c":"P06","da04024":"P15","a53cc54":"P16","21a7880":"P10","e3568b6":"P04","298642f":"P05","f8d1b38":"P09","c74c815":"P07","6dad1dd":"P07","36e15e0":"P07","ec618c6":"P08"}
kw={"header lines":"P09","escapes in a value":"P22","nested too deep":"P22","framing without predicate":"P05","inside a continued":"P09","end of a file":"P09","tab or a line":"P09","around '='":"P09","transformation without":"P24","properties only":"P08"}
try: kw.update(json.load(open('/verif/tools/fixed_keywords.json')))
except Exception: pass
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--oneline'],text=True).splitlines():
    h,t=l.split(' ',1)
    if not t.startswith('fix:'): continue
    p=m.get(h) or next((v for k,v in kw.items() if k in t),None)
    assert p,(h,t)
    out.append(f"fixed: property={p} {h} {t[5:]}")
f='/verif/known_findings.json'
d=json.load(open(f)); d['fixed']=out
json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
print(len(out))
