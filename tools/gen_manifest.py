"""Writes MANIFEST.json; CLAIMED is the one place that says what is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ model checking; TLC trace validation of the real code run under a controlled scheduler"
SEQ = "TLA+ model; TLC-enumerated behaviours replayed into generated structs using the real macros"
CLAIMED = {i: (TRACE, "model_checking",
               "Bounded: TLC decides every recorded execution against FxObj.tla, whose own invariants are evaluated in every state; "
               "executions come from enumerated and random client programs under a deterministic scheduler (all schedules up to a "
               "preemption bound, plus random ones). Trusts the scheduler and the stand-ins for parking_lot/tokio locks; sequential consistency only.")
           for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")}
CLAIMED.update({i: (SEQ, "model_checking",
                    "Bounded: TLC enumerates the complete finite state graph of FxSeq for every template; all histories up to a length, every "
                    "transition once and random longer histories of it are replayed into structs generated from a grid of declarations. "
                    "Trusts the mapping from declarations to templates (lib/fx.py).")
                for i in ("C09", "C10", "C11", "C14")})
for i, spec, lib, what in (("C12", "FxBuild", "build", "structs with builders"), ("C13", "FxBuild", "build", "structs with builders"),
                           ("C15", "FxRc", "rc", "reference-counted structs"),
                           ("C16", "FxSerde", "serdes", "structs with serde support"), ("C17", "FxSerde", "serdes", "structs with serde support")):
    CLAIMED[i] = (SEQ, "model_checking",
                  "Bounded: TLC enumerates the complete finite state graph of %s; all histories up to a length, every transition once and random "
                  "longer histories of it are replayed into generated %s. Trusts the mapping from declarations to templates (lib/%s.py)." % (spec, what, lib))
ATTR = "TLA+ model; TLC resolves and enumerates declarations, the compiled structs are compared with its answers"
CLAIMED.update({
    "C18": (ATTR, "model_checking", "Bounded: TLC checks the resolution rules of FxAttr on everything written with up to 2 (thorough 3) arguments and resolves "
            "random declarations of up to 6 fields; every name a helper could go by is probed in the compiled structs, with the shape of what it returns. "
            "Declarations FxAttr calls Unsettled are not checked."),
    "C19": (ATTR, "model_checking", "Bounded as C18; every method is called from five places of the module tree and another crate; a method that is not "
            "visible gives way to a blanket trait's, which is how the probe tells."),
    "C20": (ATTR, "model_checking", "Every contradictory declaration of up to 2 arguments on one field must be rejected, a sample (thorough: all) of the others and "
            "random larger ones must compile, with Send/Sync as FxAttr says. Any error at the declaration counts as a rejection."),
    "C21": (ATTR, "model_checking", "Bounded: TLC checks the rules of FxItems on everything written with up to 3 (thorough 4) arguments and resolves random "
            "declarations; attribute macros and a derive of the harness leave a trace on the items they are applied to, which is compared."),
    "C22": (ATTR, "model_checking", "Bounded as C21; the existence, kind and visibility of the items are probed from five places of the module tree and another "
            "crate; structs that should do without Default are compiled with field types that have none."),
    "C23": (ATTR, "model_checking", "Bounded: 5 (thorough 10) sets of features. Random declarations are resolved by FxAttr, which also says what they need: those that "
            "can do with the set are probed for their helpers, the others have to be refused; behaviours of FxSeq and FxSerde are replayed under each set."),
    "C24": (ATTR, "model_checking", "All questions FxForms poses (7129 combinations of level, argument name and form, less those the documentation leaves open) are compiled one by one; "
            "TLC checks the documented invariants of the table."),
})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q lib check.py",
    "hooks": {"guard": "none", "enable": "no hooks: lock crates are replaced by path dependencies of the harness ([patch.crates-io]), everything else is public API", "source_commits": []},
    "checks": [{
        "property": i, "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": CLAIMED[i][0], "level": CLAIMED[i][1], "level_note": CLAIMED[i][2],
    } for i in ids if i in CLAIMED],
    "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in CLAIMED],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
