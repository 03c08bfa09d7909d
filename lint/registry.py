RULES = {}
TECH = {}
NOTE = {}


def reg(pid, mod, fun, tech, note):
    RULES[pid] = (mod, fun)
    TECH[pid] = tech
    NOTE[pid] = note


reg("C29", "rules.effects", "determinism",
    "taint dataflow over resolved MIR: hash-iteration order, time, randomness, environment to results",
    "Every call and reference in every library function is resolved and classified; assumes roxmltree, Inflector, chrono and num crates are deterministic and that unresolved trait-object calls are user supplied generators.")
reg("C30", "rules.effects", "purity",
    "effect analysis over the resolved call graph (who-may-call, no mutable statics)",
    "Every call site of every library function is resolved to a callee that is in the workspace or on a reviewed allow-list of effect-free external crates; the CLIs act as positive control.")

REFT = "abstract interpretation of resolved MIR to gated terms, compared with reference functions (specification crate) over all inputs"
REFN = ("Readers and reference are summarised over one symbolic XML node and must agree on every path; roxmltree is trusted, "
        "core/alloc/std by written models, anything unmodelled is reported as undecided in the evidence.")
for _p in ("C10", "C11", "C12", "C13", "C14", "C15", "C18", "C39"):
    reg(_p, "rules.parser", _p, REFT, REFN)

GENN = ("Every method of the default generators and its reference are summarised over one symbolic entity and generator and must "
        "give the same text for every model; core/alloc/std by written models, Inflector trusted, anything unmodelled is reported "
        "as undecided in the evidence.")
for _p in ("C16", "C17", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C31"):
    reg(_p, "rules.gen", _p, REFT, GENN)

for _p in ("C32", "C33", "C34", "C35"):
    reg(_p, "rules.wsdl", _p, REFT, REFN.replace("Readers and reference are", "Reader, generator and reference are"))

for _p in ("C36", "C37", "C38"):
    reg(_p, "rules.cli", _p, REFT.replace("over all inputs", "for every outcome of every file operation"),
        "Each tool's result and trace of file system events must agree with the reference on every path; the file system operations "
        "of std are written models, reading and generating are taken as functions, anything unmodelled is reported as undecided in the evidence.")

TYPN = ("The repository's function and its reference are summarised over symbolic values and must agree on every path, panics included; "
        "core/alloc/std and the used parts of chrono, num-bigint, xml-rs and yaserde by written models, anything unmodelled is reported as "
        "undecided in the evidence.")
for _p in ("C02", "C04", "C05", "C06", "C07"):
    reg(_p, "rules.types", _p, REFT, TYPN)
for _p in ("C08", "C09"):
    reg(_p, "rules.types", _p, REFT.replace("resolved MIR", "the derives' expansions on witness types (resolved MIR)"), TYPN.replace(
        "The repository's function", "The code each derive expands to for the witness types of spec_derive/"))

PARN = ("Texts are split into parts only where the code or the reference looks, so every text is covered; core/alloc/std by written models, "
        "chrono's parsers are functions of the text that reject what lies outside a stated form, anything unmodelled is reported as undecided "
        "in the evidence.")
reg("C01", "rules.parse", "C01", "abstract interpretation of resolved MIR over shapes of texts: feasibility of every panic", PARN)
reg("C03", "rules.parse", "C03", REFT.replace("over all inputs", "over all texts"), PARN)
