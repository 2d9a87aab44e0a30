TECHNIQUE = {
    "default": "TLA+ specification checked with TLC; every transition of its bounded graph executed against the real code; recorded executions validated by TLC",
}
LEVEL_NOTE = {
    "default": "TLC checks the property on all reachable states of the bounded specification; conformance executes every (state, input) pair of that graph in the real code and validates long random executions. Assumes the bounds are representative and the harness projection is faithful.",
}
NOT_APPLICABLE = {}
