"""Runs a program of the repository on the extension built for the check.

With VERIF_ALARM=k a virtual alarm clock replaces signal.alarm: once it is
armed and the adaptive solver has been started, it goes off at the k-th source
line executed, unless it has been disarmed by then.  The number of lines
executed while it was armed is written to the file VERIF_ALARM_LOG.
"""
import os
import runpy
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C          # noqa: E402


class Alarm:
    def __init__(self, at, prog):
        self.at, self.n = at, 0
        self.armed = self.started = self.fired = False
        self.files = (os.path.join(C.REPO, 'src', ''), prog)

    def alarm(self, seconds):
        self.armed = seconds > 0
        return 0

    def line(self, frame, event, arg):
        if event == 'line' and self.armed and self.started:
            self.n += 1
            if self.n == self.at:
                self.armed, self.fired = False, True
                sys.settrace(None)
                signal.getsignal(signal.SIGALRM)(signal.SIGALRM, frame)
        return self.line

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.files):
            return self.line

    def start(self, orig):
        """Wraps the solve method: from now on lines are counted, also in
        the frames that are already running."""
        def solve(*a, **kw):
            self.started = True
            f = sys._getframe(1)
            while f is not None:
                if f.f_code.co_filename.startswith(self.files):
                    f.f_trace = self.line
                f = f.f_back
            if not self.fired:
                sys.settrace(self.call)
            return orig(*a, **kw)
        return solve

    def install(self):
        from src.solver.AdaptivePartitioner import AdaptivePartitioner
        signal.alarm = self.alarm
        AdaptivePartitioner.solve = self.start(AdaptivePartitioner.solve)


if __name__ == '__main__':
    C.setup_path()
    prog = sys.argv[1]
    sys.argv = sys.argv[1:]
    import solver
    solver.install()
    clock = None
    if 'VERIF_ALARM' in os.environ:
        clock = Alarm(int(os.environ['VERIF_ALARM']), prog)
        clock.install()
    try:
        runpy.run_path(prog, run_name='__main__')
    except solver.SolverFault:
        sys.exit(solver.FAULT_CODE)
    finally:
        sys.settrace(None)
        if clock is not None:
            with open(os.environ['VERIF_ALARM_LOG'], 'w') as f:
                f.write('%d %d' % (clock.n, clock.fired))
