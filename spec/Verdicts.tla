------------------------------ MODULE Verdicts -------------------------------
EXTENDS Metrics, Empty, Switches, Conds, Jumps, Limits, Classes, Nulls, Uses, Objc, Envy, Literals
Expected(ln) == CASE ln.fam = "metrics" -> MetricsExpected(ln)
                  [] ln.fam = "empty" -> EmptyExpected(ln)
                  [] ln.fam = "switch" -> SwitchExpected(ln)
                  [] ln.fam = "conds" -> CondsExpected(ln)
                  [] ln.fam = "limits" -> LimitsExpected(ln)
                  [] ln.fam = "classes" -> ClassesExpected(ln)
                  [] ln.fam = "jumps" -> JumpsExpected(ln)
                  [] ln.fam = "nulls" -> NullsExpected(ln)
                  [] ln.fam = "uses" -> UsesExpected(ln)
                  [] ln.fam = "objc" -> ObjcExpected(ln)
                  [] ln.fam = "envy" -> EnvyExpected(ln)
                  [] ln.fam = "lits" -> LiteralsExpected(ln)
=============================================================================
