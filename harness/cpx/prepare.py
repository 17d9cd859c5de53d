# the reference model of the curve and the point representatives are shared with harness/cp
import os
for f in ('ref.go', 'ref2.go', 'pts.go'):
    add('internal/zzverif/cpx/cp_' + f, os.path.join(VERIF, 'harness', 'cp', f))
