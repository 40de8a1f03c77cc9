import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, pp
def st(f,i,ind=0):
    if i is None or i<0: return
    n=f.N[i];k=n["k"];p="  "*ind
    L="%4d "%(n.get("l") or 0)
    if k=="Block":
        for c in f.kids(i): st(f,c,ind)
    elif k=="If":
        print(L+p+"if "+pp.ex(f,n["cond"])); st(f,n["then"],ind+1)
        if n["else"]>=0: print(L+p+"else"); st(f,n["else"],ind+1)
    elif k in("For","While","Do","RangeFor","Switch"):
        print(L+p+k+" "+ (pp.ex(f,n.get("init")) +";" if k=="For" else "")+ (pp.ex(f,n["range"])+" -> "+n.get("var","") if k=="RangeFor" else pp.ex(f,n.get("cond")))+";"+pp.ex(f,n.get("inc"))); st(f,n["body"],ind+1)
    elif k=="Case": print(L+p+"case "+pp.ex(f,n["c"][0])); st(f,n["sub"],ind+1)
    elif k=="Default": print(L+p+"default"); [st(f,c,ind+1) for c in f.kids(i)]
    elif k=="Try":
        print(L+p+"try"); st(f,n["body"],ind+1)
        for h in n["hs"]: print(L+p+"catch"); [st(f,c,ind+1) for c in f.kids(h)]
    else: print(L+p+"[%d] "%i+pp.ex(f,i))
if __name__=="__main__":
    p=ir.load()
    for a in sys.argv[1:]:
        for f in p.F.values():
            if a in f.name and not f.get("dep"):
                print("==",f.name,f.loc(),f.key[:80],"const" if f.get("const") else "", f.get("acc"), [q["n"] for q in f.params])
                for it in f.get("inits",[]): print("     init",it.get("fd") or it.get("base"),pp.ex(f,it["i"]))
                st(f,f.body)
