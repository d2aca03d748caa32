#!/usr/bin/env python3
"""rerun.py [-j N] ID...: run the property's check against kept planted bugs"""
import sys, subprocess, json, shutil, os
from concurrent.futures import ThreadPoolExecutor
def one(ID):
    S="/tmp/rr-"+ID; shutil.rmtree(S, ignore_errors=True)
    subprocess.run("cp -a /repo %s && git -C %s apply /verif/seeded/%s/patch.diff"%(S,S,ID),shell=True,check=True)
    p=json.load(open("/verif/seeded/%s/meta.json"%ID))["property"]
    r=subprocess.run("cd /verif && VERIF_REPO=%s VERIF_SEED=%s python3 check.py %s"%(S,os.environ.get("VERIF_SEED","1"),p),shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    shutil.rmtree(S); print(ID,p,r.returncode,"" if r.returncode==1 else "MISSED" if r.returncode==0 else r.stdout[-600:],flush=True)
ids=sys.argv[1:]
if ids==["all"]: ids=sorted(os.listdir("/verif/seeded"))
for i in ids: one(i)
