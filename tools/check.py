#!/usr/bin/env python3
import os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv, checks


def main():
    if "--setup" in sys.argv:
        r = subprocess.run(["java", "-cp", mbv.JAR, "tlc2.TLC", "-h"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        env = mbv.goenv()
        subprocess.run(["go", "build", "./..."], cwd=mbv.REPO, env=env, check=False)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = mbv.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](c)
        return c.finish()
    except mbv.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True)
        # a rejection already established on the real code stands
        if c.violations:
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()


sys.exit(main())
