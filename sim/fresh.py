"""One simulated job in a new interpreter with its own hash seed: fresh.py SPEC RESULT (see frame.Ctx.job, fresh=)."""
import importlib
import os
import pickle
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.realpath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), "props")]


def main():
    import harness

    with open(sys.argv[1], "rb") as f:
        sp = pickle.load(f)
    out = open(sys.argv[2], "wb")
    after = getattr(importlib.import_module(sp["after"][0]), sp["after"][1]) if sp["after"] else None

    def body(rank, world):
        import simulation

        s = simulation.Simulation(sp["cfg"])
        s.run()
        return after(s) if after is not None else None

    pickle.dump(harness.run_world(sp["n"], body, **sp["kw"]), out)
    out.close()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
