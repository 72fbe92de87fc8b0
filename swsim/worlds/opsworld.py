"""Base of worlds which are histories of operations in one process lifetime."""

from ..core.runner import World


class OpsWorld(World):
    assumptions = []
    stub = []

    def start(self, plan):
        return {"i": 0}

    def setup(self, ctx, plan, fs):
        pass

    def after(self, ctx, op):
        """Invariant after every operation."""

    def finish(self, ctx, plan):
        pass

    def execute(self, ctx, plan, model, fs):
        self.plan, self.fs = plan, fs
        self.setup(ctx, plan, fs)
        for i, op in enumerate(plan["ops"]):
            self.index = i
            ctx.ops[op["op"]] += 1
            if fs:
                fs.begin(plan.get("tuning", {}), op.get("faults", ()))
            note = getattr(self, "op_" + op["op"])(ctx, op)
            if fs:
                fs.end()
            ctx.ev("op", i, op["op"], note)
            self.after(ctx, op)
        self.finish(ctx, plan)
        return "end"
