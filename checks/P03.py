import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
from vplib import core, feas

def targets():
    return [
        feas.feasibility_target("swp", 1600, 40000, big=40),
        feas.feasibility_target("wh", 1200, 30000, lo=2, big=24),
        feas.feasibility_target("gm", 600, 20000, far=False, big=22),
        feas.feasibility_target("rfcs", 1200, 75000, big=40),
        feas.large_target(["swp", "rfcs", "wh"], 120, 3000, 15, slow=("rfcs", "wh")),
    ]

if __name__ == "__main__":
    sys.exit(core.run_check("P03", targets(), rule=feas.RULE,
                            assumptions=feas.ASSUMPTIONS))
