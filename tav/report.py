"""Records exchanged between the analysis of one unit and the runner."""
OK, VIOLATION, UNDECIDED = "ok", "violation", "undecided"


def rec(status, rule, construct, where, msg="", n=1, what="", steps=()):
    """one decided (or undecided) obligation.  construct names the analysed thing stably (no line numbers)."""
    return {"status": status, "rule": rule, "construct": construct, "where": where, "msg": msg[:1500], "n": n,
            "what": what, "steps": list(steps)[:40]}
