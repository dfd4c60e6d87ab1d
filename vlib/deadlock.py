"""Tells a program that will never get on from one that has only been given too little time."""

import os
import time


def all_asleep(pid):
    """The states of the process's threads, if none of them has been running or ready to run for some seconds, so that
    it is not for want of time that they get nowhere; otherwise None. Says something only about a process that waits
    for nothing from outside."""
    first = None
    for _ in range(40):
        time.sleep(0.1)
        now = {}
        try:
            for t in os.listdir(f"/proc/{pid}/task"):
                with open(f"/proc/{pid}/task/{t}/stat") as f:
                    v = f.read().rsplit(")", 1)[1].split()
                if v[0] != "S":
                    return None
                now[t] = int(v[11]) + int(v[12])
        except (OSError, IndexError):
            return None
        if first is None:
            first = now
        # the sanitizers have a thread that wakes up now and then
        if now.keys() != first.keys() or sum(now.values()) - sum(first.values()) > 2:
            return None
    return ["S"] * len(first)


def alone(pid):
    """Whether the session that the process leads has no other process."""
    for d in os.listdir("/proc"):
        if d.isdigit() and int(d) != pid:
            try:
                with open(f"/proc/{d}/stat") as f:
                    if int(f.read().rsplit(")", 1)[1].split()[3]) == pid:
                        return False
            except (OSError, IndexError):
                pass
    return True
