"""S06: bounds of the time step (see steps.py)"""
from sa.checks.steps import report


def run(ctx):
    ctx.rule("every time step is at most the maximum, at most the distance to the next output instant, and not integrated when below the minimum, which ends the run with a failure status; "
             "a rejected step is retried with a strictly smaller one")
    report(ctx, "S06")
