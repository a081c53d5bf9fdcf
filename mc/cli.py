"""Entry point: python -m mc.cli <property> [quick|thorough] [--replay FILE]"""

import importlib
import json
import os
import sys
import traceback


def run(argv):
    prop = argv[0]
    from mc import core

    try:
        core.load_target()
        module = importlib.import_module(f"mc.{prop.lower()}")
        return core.main(prop, module.SPACES, module.ASSUMPTIONS, argv[1:])
    except Exception as e:  # the target can not even be imported or driven
        text = traceback.format_exc()
        print(text)
        rdir = os.path.join(core.VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-0.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "space": None, "case": None, "disagreement": text}, f)
        ev = os.path.join(core.VERIF, "evidence", f"{prop}.json")
        with open(ev, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "tier": os.environ.get("VERIF_TIER", "quick"),
                    "seed": int(os.environ.get("VERIF_SEED", "1")),
                    "level": "model_checking",
                    "coverage": {
                        "states": 0,
                        "transitions": 0,
                        "traces_validated_against_impl": 0,
                        "samples": [],
                        "exhaustive": False,
                    },
                    "wall_s": 0,
                    "violations": 1,
                },
                f,
            )
        print(f"VIOLATION property={prop} replay={path}")
        return 1


if __name__ == "__main__":
    sys.exit(run(sys.argv[1:]))
