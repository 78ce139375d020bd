"""Make hypothesis importable from /opt/venv without installing anything there.

The wheels are unpacked from the offline wheelhouse into <verif>/.deps
(git-ignored).  A check does it itself when setup_cmd has not been run.
"""
import os
import pathlib
import shutil
import sys
import tempfile
import zipfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEPS = ROOT / ".deps"
WHEELS = pathlib.Path("/opt/veriftools/wheels")
FALLBACK = pathlib.Path("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def ensure():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    if not (DEPS / "hypothesis").is_dir():
        tag = "cp%d%d" % sys.version_info[:2]
        wheels = sorted(WHEELS.glob(f"hypothesis-[0-9]*-{tag}-*.whl"))[-1:]
        wheels += sorted(WHEELS.glob("sortedcontainers-*.whl"))[-1:]
        tmp = pathlib.Path(tempfile.mkdtemp(prefix=".deps-", dir=ROOT))
        try:
            for w in wheels:
                with zipfile.ZipFile(w) as z:
                    z.extractall(tmp)
            if not (tmp / "hypothesis").is_dir():
                raise RuntimeError("no hypothesis wheel in the wheelhouse")
            try:
                os.rename(tmp, DEPS)
            except OSError:
                pass  # someone else did it
        except Exception:
            if FALLBACK.joinpath("hypothesis").is_dir():
                sys.path.append(str(FALLBACK))
                return
            raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.path.append(str(DEPS))


if __name__ == "__main__":
    ensure()
    import hypothesis
    print("hypothesis", hypothesis.__version__, hypothesis.__file__)
