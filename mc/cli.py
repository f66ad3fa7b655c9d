"""Runs the real main.py in this process, with the alarm replaced by a stand-in
(the real one would stop the checker's own watchdog)."""
import os
import runpy
import signal
import sys

import build
from core import under
from harness import Fixed, quiet, repo


ALARMS = []           # seconds main.py asked for
HANDLER = [None]      # what main.py installed for the alarm


def run_main(args, chooser=None):
    repo()
    HANDLER[0] = None
    del ALARMS[:]
    old_argv, old_cwd = sys.argv, os.getcwd()
    old_sig, old_alarm = signal.signal, signal.alarm
    old_env = dict(os.environ)
    sys.argv = [os.path.join(build.REPO, "main.py")] + [str(a) for a in args]

    def fake_signal(signum, handler):
        if signum == signal.SIGALRM:
            HANDLER[0] = handler
            return None
        return old_sig(signum, handler)
    signal.signal, signal.alarm = fake_signal, lambda s: ALARMS.append(s) or 0
    try:
        with quiet(), under(chooser or Fixed(0)):
            runpy.run_path(sys.argv[0], run_name="__main__")
    finally:
        signal.signal, signal.alarm = old_sig, old_alarm
        sys.argv = old_argv
        os.chdir(old_cwd)
        os.environ.clear()
        os.environ.update(old_env)
    return list(ALARMS)
