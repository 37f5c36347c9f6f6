import sys; sys.setrecursionlimit(20000)
import expr as X, domain as D
from poly import *
w=X.sym("window","int",1); W=Poly.atom(w)
h,l,c=[X.at_in(n) for n in("high","low","close")]
pc=X.row(X.TP-1,X.shift_rows(c,Poly.const(1)),X.LNAN)
tr=X.maximum(X.maximum(X.sub(h,l),X.absval(X.sub(h,pc)),True),X.absval(X.sub(l,pc)),True)
tr2=X.sub(X.maximum(h,pc,True),X.minimum(l,pc,True))
print(X.show(tr)[:300]); print(tr.size,tr2.size)
import time; t=time.time(); print(D.equal(tr,tr2), time.time()-t)
tr3=X.sub(X.maximum(h,pc,True),X.minimum(l,c,True))
m=D.diffs(tr,tr3); print(len(m), m[0].where(), m[0].a, m[0].b)
a=X.window("mean",tr,W,"full"); b=X.window("sum",tr2,W,"full"); b=X.div(b,X.leaf(Rat(W,ONE)))
print(a is b, X.show(a))
print(X.show(X.window("mean",pc,W,0)))
print(X.show(X.window("max",X.scale(c,2),W,0)))
