TECH = "contract-based deductive verification with Verus: contracts on the derive's own functions (which statements they generate, for every definition) and on the impls that the real derive emits for a list of definitions, both extracted from /repo on every run"
NOTE = ("For each listed definition (vf/shapes.py) the derive's real output is extracted and every function proved by Verus against a contract generated from the definition's meaning, for all inputs and all component parsers meeting the Parse contract. "
        "For every definition, contracts on nommy-derive's own functions (from derive_parse down) prove which statements it generates, in which order and with which parts; what those statements amount to is covered by the list only (translation validation). Assumes the contracts of std and eyre items in verus/prelude.vrs and the mechanical extraction (DESIGN.md). The replay over mock components is bounded and not counted as proved.")
for i in ("C13", "C14", "C15"): DERIVE[i] = dict(technique=TECH, level="translation_validation", level_note=NOTE)
DERIVE["C17"] = dict(technique="contract-based deductive verification with Verus of the derive's functions extracted from /repo on every run (attribute reading, the making of definitions, derive_parse itself); expansions of listed definitions and compiled items only to find a failing input",
    level="proof", level_note="Contracts on nommy-derive's real functions from derive_parse down to parse_args, every obligation discharged by Verus/Z3 for every definition and every spelling of its attributes; assumes the contracts of syn and proc_macro2 items in verus/attr.vrs and verus/make.vrs (whether tokens spell a type is uninterpreted) and the mechanical extraction (DESIGN.md). Listed groupings and bad settings are also compiled with the real derive (bounded, not counted as proved).",
    theorems=["attributes_by_settings", "two_attributes_are_one", "two_lists_are_one", "others_say_nothing", "bad_settings_are_errors", "good_settings_are_accepted", "ignores_accumulate_last_value_wins"])
for i in ("C16", "C18"):
    DERIVE[i] = dict(level_note="Contracts on the library's real functions, every obligation discharged by Verus/Z3 for all inputs and component parsers; for derived parsers the contracts are proved on the derive's real output for each listed definition (vf/shapes.py), not for the macro in general. Assumes the contracts of std and eyre items in verus/prelude.vrs and the mechanical extraction (DESIGN.md). The replays against the real crate are bounded and not counted as proved.")
import sys; sys.path.insert(0, V + "/vf")
import derive
THM["C15"] = ["thm_agree_" + s.name for s in derive.proof_shapes("C15")]
NA = {}
