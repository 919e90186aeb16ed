"""C27: text and operator objects give the same equations (spec/Eqn.tla)."""
from calc_checks import run_with
LEVEL = "model_checking"
NOTE = 'Random equations are spelled as text with random spacing, operator spellings, keyword arguments, substitutions, shadowed names and deliberate mistakes, and given to the problem classes. The specification counts top-level equals signs character by character, resolves every name through the scopes in order of precedence, decides acceptance, and gives the exact value of every part of the accepted equation, which the evaluated parts must equal. EqnMC compares the counting with its definition on all short texts.'


def corrupt(e):
    if e["op"] == "eqn" and e["res"]:
        e["text"] = [c for c in e["text"] if c != "="]
        return True
    return False


def run(ck):
    ck.design("EqnMC", ck.pick("EqnMC.cfg", "EqnMCdeep.cfg"), workers=8)
    plan = [("cart", "text", ck.pick(60, 400), ck.pick(8, 16))]
    plan += [(k, "text", ck.pick(12, 120), ck.pick(1, 4)) for k in ["disk", "sphere", "shell", "cylinder"]]
    run_with(ck, "eqn_drive", plan, corrupt, steps=16)
