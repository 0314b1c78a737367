import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'lib')]
import check, jobs
check.build_engine()
for c in sorted({p['crate'] for p in jobs.PROPS.values()}):
    print(c, check.build_ir(c))
