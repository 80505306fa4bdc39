"""texts for the manifest"""
TECH = {"*": "TLA+ specification model-checked with TLC; TLC trace validation of recorded runs of the real program"}
NOTES = {"*": "The specification is checked exhaustively in a small scope; the real program is run on "
              "generated inputs with scripted randomness and every recorded behaviour must be one of the "
              "specification's. Trusted: TLC, numpy, the projection of floats to the exact lattice, the "
              "vendored copy of the helpers package."}
