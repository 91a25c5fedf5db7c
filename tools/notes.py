"""Technique and level notes of the checks, by property."""
_T = "Trusts the reference model in core/src/model.rs, written from the wire format and not from the code."
TECH = {
    "C01": "property-based testing: round trips of generated values, all parsers and entry points",
    "C02": "property-based testing against an independent reference encoder",
    "C03": "property-based testing against the reference encoder's lengths",
    "C04": "property-based differential testing of output targets, stateful push histories",
    "C05": "structured fuzzing against an independent reference decoder",
    "C06": "differential fuzzing of the three parsers; stateful operation histories",
    "C07": "structured fuzzing with a crash, hang and allocation oracle, two build profiles",
    "C08": "model-based stateful testing of parser histories",
    "C09": "metamorphic fuzzing: bytes outside an extent must not matter",
    "C10": "model-based stateful testing of cleanup",
    "C11": "metamorphic stateful testing: skip versus read and discard",
    "C12": "property-based testing against exact integer arithmetic, 8-bit ranges enumerated",
    "C13": "property-based testing over float bit patterns",
    "C14": "property-based testing against reference base-128 arithmetic",
    "C15": "model-based stateful testing of bounded sequences",
    "C16": "property-based testing with exhaustive two-byte texts",
    "C17": "model-based stateful testing of builder histories",
    "C18": "property-based testing of declared enums, tag spaces enumerated, generated programs",
    "C19": "property-based testing of derived records, generated programs",
    "C20": "property-based testing of fixed-width values",
    "C21": "structured fuzzing of four feature builds against one reference decoder",
    "C22": "structured fuzzing of feature builds against one reference model",
    "C23": "property-based testing of payload lengths around the prefix limits",
    "C24": "structured fuzzing against a reference decoder that predicts the error",
    "C25": "property-based testing of algebraic laws and metamorphic relations",
    "C26": "model-based stateful testing of the printed backtrace",
    "C27": "property-based testing of bounds behaviour with extreme arguments",
    "C28": "differential fuzzing over the ways to supply input",
    "C29": "metamorphic fuzzing: embedding in a stream",
    "C30": "structured fuzzing with a re-encoding oracle",
    "C31": "model-based stateful testing of segmented-vector histories",
    "C32": "model-based stateful testing of offset-tracker histories",
    "C34": "property-based testing with counting leaves in generated nestings",
    "C35": "metamorphic testing of operation histories: alone, in sequence, in parallel and reentrant",
    "C36": "fault injection into user code at every drawn occasion, with elements that track their own lives",
    "C33": "property-based testing with a recording serializer",
}
NOTES = {k: "Random search with shrinking over generated values, bytes and histories of the types in harness/; finds, does not prove. " + _T for k in TECH}
