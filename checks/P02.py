import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, feas

def targets():
    return [
        feas.feasibility_target("si", 2500, 60000, big=35),
        feas.feasibility_target("pi", 2500, 60000, big=35),
        feas.feasibility_target("mj", 2000, 40000, big=30),
        feas.feasibility_target("cmt", 2000, 40000, big=30),
        feas.feasibility_target("sn", 4000, 100000, big=45),
        feas.feasibility_target("pn", 4000, 100000, big=45),
        feas.feasibility_target("ty", 2500, 60000, lo=2, big=40),
        feas.large_target(["si", "pi", "mj", "cmt", "sn", "pn", "ty"], 280, 8000, 12),
    ]

if __name__ == "__main__":
    sys.exit(core.run_check("P02", targets(), rule=feas.RULE,
                            assumptions=feas.ASSUMPTIONS))
