import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, feas

def targets():
    return [
        feas.feasibility_target("ps", 4000, 100000, big=45),
        feas.feasibility_target("ps2o", 3000, 75000, big=40),
        feas.feasibility_target("gpl", 2500, 50000, big=35),
        feas.feasibility_target("ss", 4000, 100000, big=45),
        feas.feasibility_target("gps", 1500, 30000, big=26),
        feas.feasibility_target("ims", 2500, 50000, big=35),
        feas.feasibility_target("mbsa", 900, 30000, hi=16, big=20),
        feas.large_target(["ps", "ps2o", "gpl", "ss", "ims", "gps"], 240, 6000, 12),
    ]

if __name__ == "__main__":
    sys.exit(core.run_check("P01", targets(), rule=feas.RULE,
                            assumptions=feas.ASSUMPTIONS))
