"""One-off: writes vf/golden.json, the reference coefficients of the methods (published tableaux as
coded in the pinned commit, cross-checked by order conditions in tools/check_golden.py).  Not run by the checks."""
import json, sys
import numpy as np
import extensisq as X
G={}
def arr(a): return np.asarray(a,float).tolist()
for m in ['BS5','Ts5','CK5','CKdisc','Pr7','Pr8','Pr9','CFMR7osc','Me4','Fi4N','Fi5N','Mu5Nmb','MR6NN','TRBDF2','TRX2','KC3I','KC4I','KC4Ia','Kv3I']:
    c=getattr(X,m); g={}
    for k in ['A','B','C','E','Ap','Bp','Ep','E_pre','B_scale_pre','Az','B_assess','E_assess','C_fallback','B_fallback','E_fallback']:
        if hasattr(c,k) and isinstance(getattr(c,k),np.ndarray): g[k]=arr(getattr(c,k))
    for k in ['n_stages','order','order_secondary','d','kappa','filter_error','sc_params','stbrad','tanang','stbre','stbim','max_factor','min_factor']:
        v=getattr(c,k,None)
        if v is not None and v is not NotImplemented:
            g[k]=list(v) if isinstance(v,tuple) else (bool(v) if isinstance(v,(bool,np.bool_)) else (float(v) if isinstance(v,(float,np.floating)) else v))
    G[m]=g
json.dump(G,open('/verif/vf/golden.json','w'))
for m,g in G.items(): print(m,{k:(v if not isinstance(v,list) or k=='C' or k=='sc_params' else np.shape(v)) for k,v in g.items()})
