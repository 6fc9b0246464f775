"""Replay a counterexample against the real code: `python -m symgp.replay FILE`.

No stub is installed: the scenario runs on ordinary floats through NumPy. The exit code is
1 if the assertion fails (or the code raises), and 0 otherwise.
"""

import json
import sys
import traceback
import warnings

warnings.simplefilter("ignore")


def tup(x):
    return tuple(tup(e) for e in x) if isinstance(x, list) else x


def main():
    rec = json.load(open(sys.argv[1]))
    from .env import AssumptionFailed, ConEnv, Failure
    from .scenario import find

    sc = find(rec["property"], rec["scenario"])

    def run():
        """Run the scenario. Gives a line for a failure, and what failed."""
        env = ConEnv(tup(rec["params"]), values=rec["values"], choices=rec["choices"], flags=rec["flags"])
        try:
            sc.fn(env)
        except AssumptionFailed:
            return None, "inputs violate an assumption"
        except Failure as e:
            return e, f"label=<{e.label}> {e.detail}"
        except Exception as e:
            traceback.print_exc(file=sys.stdout)
            return e, f"label=<exception> {type(e).__name__}: {e}"
        return None, ""

    error, line = run()
    if error is None:
        print(line or "not reproduced")
        return 0
    # The constant that is added to diagonals for numerical stability must not be what
    # makes the difference: the failure has to remain without it.
    from lab import B

    B.epsilon = 0.0
    again, _ = run()
    if again is None or (isinstance(error, Failure) and not isinstance(again, Failure)):
        print("not reproduced without the regularisation of matrices:", line)
        return 0
    print(f"REPRODUCED {line}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
