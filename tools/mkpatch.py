"""mkpatch.py ID file <<< old\n====\nnew : makes seeded/ID/patch.diff from text replacements"""
import sys, subprocess, pathlib, shutil, tempfile
id_, *rest = sys.argv[1:]
spec = sys.stdin.read()
t = tempfile.mkdtemp()
subprocess.check_call(["git","clone","-q","-s","/repo",t+"/r"])
for blk in spec.split("\n@@@@\n"):
    f, body = blk.split("\n",1)
    old, new = body.split("\n====\n")
    new = new.rstrip("\n"); old = old.rstrip("\n")
    p = pathlib.Path(t+"/r/"+f.strip())
    s = p.read_text()
    assert s.count(old)==1, (f, s.count(old))
    p.write_text(s.replace(old,new))
d = subprocess.check_output(["git","-C",t+"/r","diff"]).decode()
pathlib.Path(f"/verif/seeded/{id_}/patch.diff").write_text(d)
shutil.rmtree(t)
print(d)
