#!/usr/bin/env python3
# Writes the "fixed" lines of /verif/known_findings.txt from the messages of fix commits in /repo
import subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M={}
def s(p,*cs):
    for c in cs: M[c]=p
s("C04","31b490e","1434c47","9d2c60b","9460d07","b2846a1","af1fa13","8220f04","cee48ab","35bf9da","5f972af")
s("C05","438e320","32ee023"); s("C20","7715547","4423195"); s("C06","4781449","a15049d","b00d51d")
s("C01","8ea975b","382e8de","28a0ec0","dd39259","60a949f","7b2d2a5")
s("C11","14fa6b3","a12d772","77f7a5d"); s("C13","485efbf","14a90c0","400dd80","c459ab6","c04787e","b7e60f2","e63b834","924bd53")
s("C02","154f549","f73e598","30757da"); s("C03","dbb58de","bd1b145"); s("C21","5f9709c")
s("C10","02cf309","a43d3a4","4461b6f","f7995e4"); s("C14","5023e2e","56b5e62","dd37db0","43ba177"); s("C08","be76e08","24f4f88","2e6af75")
s("C16","664e387","8b9ac69","5260e26"); s("C15","17c087d"); s("C17","efecb01"); s("C25","bfdee4a","2b4b612"); s("C26","9c78488"); s("C34","5c57be3"); s("C28","d0a89eb"); s("C29","729f397","bf3cbae"); s("C32","eeb6d40","1de6596","a4beb6a","46de50b","8ad8911","1840292","e63ce49"); s("C31","ea300ea","929ebde","ed9ba77"); s("C12","3faada8"); s("C23","003fb3c","f633707","5f9c0be","7a9276e","c097639","d48a1d9")
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
known=[]
path=os.path.join(here,"known_findings.txt")
if os.path.exists(path):
    known=[l for l in open(path).read().split("\n") if l.startswith("finding:")]
out=["# Genuine defects of goorc. A line",
"#   finding: property=<id> key=<key> | <what fails>",
"# is one which is not repaired: a failure of this property with this key (as in the replay file) is reported as KNOWN-FINDING.",
"#   fixed: property=<id> <commit in /repo> <what failed>",
"# is one which is repaired; it suppresses nothing.",""]+known
for l in log.split("\n"):
    h,_,m=l.partition(" ")
    if m.startswith("fix:"):
        if h not in M: print("no property for",l)
        out.append("fixed: property=%s %s %s"%(M.get(h,"C01"),h,m[5:]))
open(path,"w").write("\n".join(out)+"\n")
