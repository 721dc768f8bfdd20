"""Where each property's check is, and the known findings."""

import importlib
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop_id):
    for name in sorted(os.listdir(os.path.join(HERE, "mc", "props"))):
        if name.endswith(".py") and not name.startswith("_"):
            with open(os.path.join(HERE, "mc", "props", name)) as f:
                if f'ID = "{prop_id}"' not in f.read():
                    continue
            module = importlib.import_module("mc.props." + name[:-3])
            for value in vars(module).values():
                if getattr(value, "ID", None) == prop_id:
                    return value()
    raise SystemExit(f"no check for {prop_id}")


def known_cases(prop_id):
    """case -> what fails, for the findings listed for a property.

    A line of KNOWN_FINDINGS is either
      fixed: property=<id> <commit> <what failed>          (suppresses nothing)
      finding: property=<id> case=<literal> ::: <what fails>
    """
    listed = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                head = f"finding: property={prop_id} case="
                if line.startswith(head) and ":::" in line:
                    case, what = line[len(head) :].split(":::", 1)
                    listed[case.strip()] = what.strip()
    return listed
