"""Locating the code under test and the property-testing library."""
import os
import sys
import types

REPO = os.path.realpath(os.environ.get("PBT_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_EXTRA = [
    os.path.join(VERIF, ".deps"),
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]


def add_hypothesis_path():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    for p in _EXTRA:
        if os.path.isdir(os.path.join(p, "hypothesis")) and p not in sys.path:
            sys.path.append(p)  # at the end: never shadows the repo's own deps
    import hypothesis  # noqa: F401


def add_repo_path():
    """Make `import dsps` load the working tree of the repository."""
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "dsps", "_version.py")):
        m = types.ModuleType("dsps._version")  # generated by the build, git-ignored
        m.__version__ = "0+unknown"
        sys.modules["dsps._version"] = m


def import_repo():
    add_repo_path()
    import dsps

    got = os.path.realpath(os.path.dirname(dsps.__file__))
    if got != os.path.join(REPO, "dsps"):
        raise RuntimeError("dsps was imported from {0}".format(got))
    return dsps
