import subprocess,sys,json,os
def seed(id,prop,needs,breaks,file,old,new,count=1):
    p='/repo/'+file; s=open(p).read(); assert s.count(old)>=1,(id,s.count(old)); 
    if count and s.count(old)!=count: raise Exception((id,s.count(old)))
    open(p,'w').write(s.replace(old,new))
    d=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    os.makedirs('/verif/seeded/'+id,exist_ok=True)
    open('/verif/seeded/%s/patch.diff'%id,'w').write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open('/verif/seeded/%s/meta.json'%id,'w'),indent=1)
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
