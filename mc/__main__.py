import os
import sys
import traceback


def _main():
    from mc import engine
    if sys.argv[1] == "replay":
        return engine.replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return engine.main(sys.argv[1], tier, seed)


if __name__ == "__main__":
    try:
        code = _main()
    except Exception:  # noqa: BLE001
        # exit 1 is kept for violations
        traceback.print_exc()
        code = 2
    sys.exit(code)
