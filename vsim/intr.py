"""Interrupts (Ctrl-C), allocation failures and other exceptions at the n-th executed line of mssm.

A line of the code under test is the finest point at which Python delivers an interrupt. The
counter only sees lines of mssm's own modules run by the simulated process that armed it.
"""

import sys

EXC = {"interrupt": KeyboardInterrupt, "mem": MemoryError}


class Lines:
    """Counts lines of mssm executed inside the ``with`` block; raises at line ``at`` (0-based)."""

    def __init__(self, w, at=None, kind="interrupt"):
        self.w = w
        self.at = at
        self.kind = kind
        self.n = 0
        self.fired = False
        self.where = ""

    def _line(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n = n + 1
            if self.at is not None and n == self.at and not self.fired:
                self.fired = True
                co = frame.f_code
                self.where = f"{co.co_name}"
                if self.w is not None:
                    k = f"line:{self.kind}"
                    self.w.fault_counts[k] = self.w.fault_counts.get(k, 0) + 1
                    self.w.note("FAULT", f"line:{self.kind}:{self.where}")
                raise EXC[self.kind]("simulated " + self.kind)
        return self._line

    def _call(self, frame, event, arg):
        g = frame.f_globals.get("__name__", "")
        if g.startswith("mssm"):
            return self._line
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        if self.w is not None:
            self.w.counts["line"] = self.w.counts.get("line", 0) + self.n
        return False
