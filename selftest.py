#!/usr/bin/env python3
"""Runs the repository's own tests on the instrumented package (concretely): the hooks have to behave like the constructs they replace.
Also the pytest plugin that installs the instrumentation."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


if __name__ == "selftest":
    sys.path.insert(0, HERE)
    from vc import instr
    instr.install()
    import psrpcore  # noqa
    assert "_vc_" in vars(sys.modules["psrpcore._payload"]), "not instrumented"
    import pytest

    @pytest.fixture(autouse=True)
    def _vc_models_on():
        """with VC_SELFTEST=models the models of the verifier are on, with concrete operands"""
        if os.environ.get("VC_SELFTEST") != "models":
            yield
            return
        from vc import core, rt, models  # noqa
        eng = core.Engine("selftest")
        eng.tier, eng.assumed = "quick", {}
        rt.RT.begin(eng, core.Ctx(eng, []))
        try:
            yield
        finally:
            rt.RT.end()


if __name__ == "__main__":
    env = dict(os.environ, PYTHONPATH=HERE + ":/opt/venv/lib/python3.12/site-packages", PYTHONDONTWRITEBYTECODE="1")
    sys.exit(subprocess.run(["python3-vt", "-m", "pytest", "-q", "-p", "selftest", "-p", "no:cacheprovider", "-c", "/dev/null", "--rootdir", "/repo", "/repo/tests"] + sys.argv[1:],
                            cwd="/repo", env=env).returncode)
