"""python3 check.py <property id> [--tier quick|thorough] [--repo DIR]"""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def run():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    repo = None
    ids = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--repo":
            repo = args.pop(0)
        else:
            ids.append(a)
    from sa.core import main

    rc = 0
    for i in ids:
        rc = max(rc, main(i, tier, repo))
    return rc


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def body():
        try:
            out.append(run())
        except BaseException:
            import traceback

            traceback.print_exc()
            out.append(3)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0])
