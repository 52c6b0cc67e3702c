import sys, subprocess
# usage: fix.py PROP "message" "what" <<< blocks:  @@file\nOLD\n=====\nNEW\n
prop,msg=sys.argv[1:3]; what=sys.argv[3] if len(sys.argv)>3 else msg
txt=sys.stdin.read(); blocks=txt.split('@@')[1:]
edits={}
for b in blocks:
    f,rest=b.split('\n',1); old,new=rest.split('\n=====\n'); new=new.rstrip('\n'); old=old.rstrip('\n')
    p='/repo/'+f.strip(); s=edits.get(p) or open(p,encoding='latin1',newline='').read()
    assert s.count(old)==1,(f,s.count(old),old)
    edits[p]=s.replace(old,new)
for p,s in edits.items(): open(p,'w',encoding='latin1',newline='').write(s)
subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
subprocess.check_call(['/verif/fixed.sh',prop,what])
print('ok',msg)
