"""C01: a field keeps denoting the same function (spec/FieldState.tla)."""
LEVEL = "model_checking"


def corrupt(ts):
    for e in reversed(ts[0]["ev"]):
        for o in e["obs"]:
            if any(o["c"]):
                i = next(i for i, x in enumerate(o["c"]) if x)
                o["c"][i] = 0
                return ts
    return ts


def run(ck):
    import field_drive
    ck.design("FieldStateMC")
    with ck.driving("operating on fields"):
        traces = field_drive.drive(ck.seed, ck.pick(60, 600), ck.pick(25, 60))
    ck.validate("FieldStateTrace", traces, negative=corrupt)
