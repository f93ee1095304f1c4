"""S02: a time step is accepted completely or leaves no trace (see steps.py)"""
from sa.checks.steps import report


def run(ctx):
    ctx.rule("typestate of the trial step on every path of the time integration: time step set -> bases set -> element matrices -> solution -> demagnetising potential -> promotion of the new "
             "magnetisation, energies, and advance of the time by the same step, once; or no promotion and no advance; only accepted states are written to files")
    report(ctx, "S02")
