"""Explorations that are not jobs of the main explorer binary."""
RULE = {'C13': 'nontrivial: a sequence in which at least one read does not deliver everything asked for',
        'C17': 'nontrivial: a history with at least one kill, power loss, injected fault or preemption',
        'C18': 'nontrivial: an invocation that must fail, or into which a fault is injected'}
ASSUME = {}
def prepare(prop, tier, mc):
    if prop in ("C17", "C18"):
        import build as B
        try: B.real_tools()
        except RuntimeError as e: print("note: " + str(e)[-300:])
def jobs(prop, tier, mc): return []
