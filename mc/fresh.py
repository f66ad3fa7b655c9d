"""One job of C26 in a process of its own."""
import json
import os
import sys
import tempfile

sys.dont_write_bytecode = True
spec = json.loads(sys.argv[1])
sys.path[:] = spec["path"]
import warnings  # noqa: E402
warnings.simplefilter("ignore")
import core  # noqa: E402
keep = core.silence()
core.own_random()
core.own_clock()
import answers  # noqa: E402
answers.install()
from checks import c26  # noqa: E402

ctx = core.Ctx()
with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
    ctx.scratch = d
    with core.watchdog(120):
        res = c26.Job(spec["job"], spec["insts"], ctx).construct().solve()
os.write(keep, b"\n@@RESULT@@" + json.dumps(res).encode())
os._exit(0)
