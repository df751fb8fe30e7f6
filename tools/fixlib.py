import sys,subprocess
def rep(fn, old, new, count=1):
    p="/repo/"+fn; s=open(p).read()
    assert s.count(old)==count, (fn, old, s.count(old))
    open(p,"w").write(s.replace(old,new))
def commit(msg):
    subprocess.run(["gofmt","-l","/repo"],check=False)
    r=subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json",shell=True,capture_output=True,text=True)
    print(msg, '|', r.stdout.strip().split('\n')[-1], r.stderr[-500:])
    assert "233 passed, 0 failed" in r.stdout
    subprocess.run(["git","-C","/repo","commit","-qam",msg],check=True)
