COMMON = ("Bounded: TLC evaluates the specification's clauses in exact rational arithmetic on every recorded execution "
          "(generated inputs and cases enumerated by the models); inputs not explored are not covered. "
          "Trusted: Rat.java, the recorder, TLC. ")
ONLY = {}
DONE = ["C%02d" % i for i in range(1, 43)]
NOTES = {p: COMMON + ONLY.get(p, "") for p in DONE}
