KNOWN_FILE = "known_findings.txt"
FULL = "std,memchr,serde"
ABS = ("Abstract interpretation of the compiler's MIR in a domain of regular languages: for each obligation the driver "
       "computes, for every input text at once, the exact result of the API as a function of the input (a finite set of result "
       "classes, each with the regular language of inputs reaching it and, for result texts, the language of input segmentations) "
       "and compares it with an oracle written from the RFC grammar by automaton equality. ")
CORE = "P01,P02,P03,P04,P05,P06,P07,P08,P09,P10,P15,P16,P18,P22"
PROPS = {
    "P01": dict(configs=[FULL], explain=ABS),
    "P02": dict(configs=[FULL], explain=ABS),
    "P04": dict(configs=[FULL], explain=ABS),
    "P05": dict(configs=[FULL], explain=ABS),
    "P06": dict(configs=[FULL], explain=ABS),
    "P07": dict(configs=[FULL], explain=ABS),
    "P08": dict(configs=[FULL], explain=ABS),
    "P09": dict(configs=[FULL], explain=ABS),
    "P10": dict(configs=[FULL], explain=ABS),
    "P11": dict(configs=[FULL + "@release"], limit=200, explain=ABS),
    "P12": dict(configs=[FULL + "@release"], limit=200, shards=6, explain=ABS),
    "P13": dict(configs=[FULL + "@release"], explain=ABS),
    "P14": dict(configs=[FULL + "@release"], explain=ABS),
    "P15": dict(configs=[FULL], explain=ABS),
    "P16": dict(configs=[FULL], explain=ABS),
    "P17": dict(configs=[FULL + "@release"], explain=ABS),
    "P18": dict(configs=[FULL], explain=ABS),
    "P19": dict(configs=[FULL], extra=["errflow"], technique="path-sensitive error-flow analysis of the crate's MIR: every call that can report a write error is assumed to fail, and every path from it to the return must report failure",
                explain="Error-flow analysis of the crate's own generic MIR (all functions and closures, two feature configurations). For every call whose result can carry fmt::Error, TryReserveError, CapacityOverflowError or the template write error, the result is assumed to be the error, and all control-flow paths from the call to the function's return are followed with the known variant (through `?`, match, is_err, map_err, ControlFlow, helper functions); a path that can return success is a violation. Calls whose destination owns all its state (internal early-stopping sinks, String) are exempt by type. In addition, abstract interpretation decides for every reference that write_to_slice into a four-byte buffer succeeds exactly when the text fits and then gives the whole text (plain and password-masked), and that the string writers give the whole text."),
    "P23": dict(configs=[(FULL, "P04,P05,P08,P09,P10,P15,P16,P22")], mode="valid", extra=["surface"], technique="signature and trait-implementation rules on the type-checked crate, plus abstract interpretation of MIR showing that every value made matches its grammar",
                explain="Two parts. Type rules over every reachable safe function, every trait implementation and every field of the types that carry a grammar: no visible field, no mutable text handed out, no editing trait, and infallible conversions, views and functions make values only from values of contained grammars. " + ABS + "For this property only the grammar of the values made is judged."),
    "P20": dict(configs=[("", CORE), ("std", CORE), ("alloc,memchr", CORE), ("std@release", "P11,P14,P13,P17")], explain=ABS),
    "P21": dict(configs=[(FULL, CORE + ",P21"), (FULL + "@release", "P11,P14,P13,P17")], mode="panic", explain=ABS),
    "P22": dict(configs=[FULL], explain=ABS),
    "P03": dict(configs=[FULL], explain=ABS),
}
NOT_APPLICABLE = {}
