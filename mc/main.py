import importlib
import os
import sys
import traceback


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    try:
        mod = importlib.import_module('mc.' + prop.lower())
        return mod.run(tier)
    except Exception:
        # Everything the checks call is public behaviour of the product; if it cannot even be driven, it is broken.
        from .common import Check
        chk = Check(prop, 'model_checking', tier, 'driving the product')
        chk.add(states=0, transitions=0, traces_validated_against_impl=0)
        chk.violation('the product could not be driven:\n' + traceback.format_exc())
        return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
