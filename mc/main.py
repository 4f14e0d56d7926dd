"""Entry point: python -m mc.main ID."""
import importlib
import os
import sys
import traceback
import warnings

from . import core


def main():
    pid = sys.argv[1]
    warnings.simplefilter("ignore")
    try:
        import glimpse
    except Exception as e:
        traceback.print_exc()
        print(f"cannot import the code under test: {e}")
        return 2
    src = os.path.join(core.REPO, "src") + os.sep
    if not os.path.abspath(glimpse.__file__).startswith(src):
        print(f"wrong code under test: {glimpse.__file__}")
        return 2
    module = importlib.import_module(f"checks.{pid}")
    ck = core.Check(pid, module)
    try:
        module.explore(ck)
    except core.Stop:
        pass
    except core.HarnessError:
        raise
    except Exception:
        # Not even an undisturbed execution of the code under test ends as it should
        try:
            ck.fail(module.explore, [], None, traceback.format_exc())
        except core.Stop:
            pass
    return ck.finish()


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
