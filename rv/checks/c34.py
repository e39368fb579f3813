"""C34: the leader record tells who leads since when."""
from rv.checks import c30, c31

PROPERTY = "C34"
RULE = (
    "The competitions of C30 (faulty network, partitions, restarts under the same identity, cancellations) and the handovers of C31 run again with a monitor on every "
    "applied write of the lock record: the holder is its writer, the lease is the configured one, the renewal time lies between the request and the write, "
    "the time of acquiring is kept by renewals and new otherwise, and the transition count grows by one exactly when the "
    "holder changes and survives a release. Non-trivial: renewals and at least one change of leader."
)
REQUIRED_COUNTS = ("leader_records", "renewal_records", "first_records", "change_records", "release_records")
ASSUMPTIONS = ["nobody but electors writes the lock record, except a stranger that is then seen as a holder"]


async def _with_records(ctx, scenario):
    ctx.judge_records = True
    await scenario(ctx)
    c = ctx.counts
    ctx.nontrivial = c["renewal_records"] > 0 and c["change_records"] > 0


async def compete(ctx):
    await _with_records(ctx, c30.compete)


async def handover(ctx):
    await _with_records(ctx, c31.handover)


compete.horizon = c30.compete.horizon
handover.horizon = c31.handover.horizon
SCENARIOS = {"compete": compete, "handover": handover}
PLAN = {"quick": {"compete": 1200, "handover": 700}, "thorough": {"compete": 30000, "handover": 15000}}
