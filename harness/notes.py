"""Texts for MANIFEST.json"""
TECH = {"*": "TLA+ specification checked with TLC; every transition of its bounded state graph, and long random behaviours of it, replayed into the real code"}
NOTES = {"*": "TLC explores the specification exhaustively within stated bounds; the code is bound to it by replaying "
              "its transitions (all of them in the thorough tier, a label-covering selection in the quick tier) and "
              "simulated behaviours, with the network and the clock simulated. Bounded, not a proof about the code."}
