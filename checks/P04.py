import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, feas

def targets():
    return [
        feas.feasibility_target("gap", 300, 5000, far=False, lo=2, mid=5, hi=6, closest=1e-3, none_ok_with_L=True, timeout_is_violation=False),
        feas.feasibility_target("ptl", 600, 20000, far=False, mid=8, hi=11,
                                 timeout_is_violation=feas.few_ties, cpu_limit=30.0),
        feas.feasibility_target("lr3o", 450, 15000, far=False, mid=10, hi=16),
    ]

if __name__ == "__main__":
    sys.exit(core.run_check("P04", targets(), rule=feas.RULE,
                            assumptions=feas.ASSUMPTIONS))
