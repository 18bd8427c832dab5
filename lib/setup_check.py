"""Sanity of the tool chain and of the binding, run once as setup_cmd: the harness builds against /repo, TLC accepts a
genuine trace and rejects the same trace with one field changed or one event removed."""
import copy, os
import vlib


def main():
    ctx = vlib.Ctx("setup")
    try:
        ctx.build()
        ops = [dict(op="add", id="r1", t="edsign"), dict(op="add", id="r2", t="edkeygen"), dict(op="pop"), dict(op="pop")]
        tr = ctx.harness("queue", [dict(name="sanity", ops=ops, cfg={})])
        if ctx.validate("QueueTrace", copy.deepcopy(tr)):
            print("note: the sanity trace is rejected: the queue of this tree breaks C01")
        bad = copy.deepcopy(tr[0])
        bad["ev"][4]["inst"] = 77
        cut = copy.deepcopy(tr[0])
        del cut["ev"][2]
        for b in (bad, cut):
            if not ctx.validate("QueueTrace", [b]):
                print("corrupted trace was accepted")
                return 1
    except vlib.ToolError as x:
        print("TOOL-ERROR:", x)
        return 1
    print("setup ok")
    return 0
