"""Which contracts decide which property."""

TITLES = {"C01": "Steps run only on Ok dependencies", "C02": "Completion order", "C03": "Outcome aggregation", "C04": "Convergence", "C05": "Drift", "C06": "Identity", "C07": "Policies",
          "C08": "Owner references and last-applied", "C09": "Fault containment", "C10": "Evaluation errors", "C11": "Encoding", "C12": "Overlays", "C13": "Preconditions", "C14": "Dependencies watched",
          "C15": "Cache versions", "C16": "Re-preparation", "C17": "Registry", "C18": "Function tests chain", "C19": "Expectations", "C20": "Preparation totality"}
PROPS = {}
for _i in range(1, 21):
    _p = f"C{_i:02d}"
    PROPS[_p] = dict(title=TITLES[_p], modules=[], level="exploration", note="")
PROPS["C03"] = dict(title="Outcome aggregation", modules=["result"], level="proof")
PROPS["C10"] = dict(title=TITLES["C10"], modules=[("cel_eval", ["check_for_celevalerror", "evaluate", "evaluate_predicates", "evaluate_overlay"])], level="proof")
PROPS["C12"] = dict(title=TITLES["C12"], modules=[("cel_eval", ["_overlay_applier", "evaluate_overlay", "reconcile_value_function"]), ("payload", ["_overlay", "_deep_overlay", "_forced_overlay"]),
                                                  ("reconcile", ["_construct_resource_template", "_materialize_from_overlays", "_create_api_resource"])], level="proof")
MATCH = ("validate", ["validate_match", "_validate_dict_match", "_validate_list_match", "_validate_set_match", "_is_object_list", "_list_to_object", "_obj_to_key"])
PAYLOAD = ["_strip_koreo_directives", "_prepare_for_api", "convert_bools"]
RECON = ["load_api_resource", "_create_api_resource", "reconcile_krm_resource", "reconcile_resource_function"]
PROPS["C13"] = dict(title=TITLES["C13"], modules=[("cel_eval", ["predicate_to_koreo_result", "evaluate_predicates", "reconcile_value_function"]), ("reconcile", ["reconcile_resource_function"])], level="proof")
PROPS["C04"] = dict(title=TITLES["C04"], modules=[MATCH, ("payload", PAYLOAD + ["_extract_last_applied", "_validate_owner_reffed"]), ("reconcile", RECON)], level="proof")
PROPS["C05"] = dict(title=TITLES["C05"], modules=[MATCH, ("payload", PAYLOAD + ["_extract_last_applied", "_validate_owner_reffed"]), ("reconcile", ["load_api_resource", "reconcile_krm_resource", "reconcile_resource_function"])], level="proof")
PROPS["C06"] = dict(title=TITLES["C06"], modules=[("payload", ["_forced_overlay", "_overlay", "_deep_overlay"] + PAYLOAD), ("reconcile", ["_construct_resource_template", "_materialize_from_overlays"] + RECON)], level="proof")
PROPS["C07"] = dict(title=TITLES["C07"], modules=[("reconcile", RECON)], level="proof")
PROPS["C08"] = dict(title=TITLES["C08"], modules=[("payload", PAYLOAD + ["_updated_owner_refs", "_validate_owner_reffed"]), ("reconcile", ["_create_api_resource", "reconcile_krm_resource"])], level="proof")
PROPS["C11"].update(modules=[("payload", PAYLOAD + ["_extract_last_applied"])])
STEP = ["_reconcile_step_logic", "_reconcile_ref_switch", "_reconcile_step"]
PROPS["C01"] = dict(title=TITLES["C01"], modules=[("workflow", STEP + ["_for_each_reconciler", "_reconcile_steps", "reconcile_workflow"])], level="proof")
PROPS["C02"] = dict(title=TITLES["C02"], modules=["result", ("workflow", ["_condition_helper", "_outcome_encoder", "_for_each_reconciler", "_reconcile_steps", "reconcile_workflow"])], level="proof")
PROPS["C03"]["modules"] += [("workflow", ["_for_each_reconciler", "_reconcile_steps", "reconcile_workflow"])]
PROPS["C09"] = dict(title=TITLES["C09"], modules=["kind_lookup", ("workflow", ["_condition_helper"] + STEP + ["_for_each_reconciler", "_reconcile_steps", "reconcile_workflow"]), ("reconcile", RECON)], level="proof")
PROPS["C14"].update(modules=["extract", "celprep", "wprepare"])
PROPS["C20"].update(modules=["extract", "celprep", "wprepare"])
PROPS["C01"]["modules"] += ["extract", ("wprepare", ["_load_step", "_load_steps", "prepare_workflow", "_prepare_for_each", "_load_logic_switch"])]
PROPS["C17"] = dict(title=TITLES["C17"], modules=["registry"], level="proof")
LOOKUPS = ["get_resource_from_cache", "get_resource_system_data_from_cache"]
PROPS["C15"] = dict(title=TITLES["C15"], modules=[("cache", LOOKUPS + ["_extract_meta", "_handle_notifications", "prepare_and_cache", "delete_from_cache", "delete_resource_from_cache", "_reprepare_and_update_cache"])], level="proof")
PROPS["C16"] = dict(title=TITLES["C16"], modules=["cache", "registry"], level="proof")
PROPS["C18"].update(modules=[("ftrun", ["run_function_test", "_run_test_cases", "_run_test_case", "MockApi.call_api", "MockApi.async_get", "MockApi.materialized", "_merge_overlay"])])
PROPS["C19"].update(modules=["ftrun", ("cel_eval", ["predicate_to_koreo_result"])])
PROPS["C12"]["modules"] += [("celprep", ["_overlay_indexer", "prepare_overlay_expression"]), ("fprepare", ["_prepare_overlays", "prepare_value_function"])]
PROPS["C13"]["modules"] += [("celprep", ["predicate_extractor"]), ("fprepare", ["prepare_value_function", "prepare_resource_function"])]
PROPS["C11"]["modules"] += [("celprep", ["encode_cel", "_escape", "_encode_plain"])]
PROPS["C14"]["modules"] += ["fprepare"]
PROPS["C20"]["modules"] += ["fprepare", "schemas"]
PROPS["C04"]["modules"] += [("fprepare", ["_prepare_create", "_prepare_update"])]
PROPS["C05"]["modules"] += [("fprepare", ["_prepare_update"])]
PROPS["C07"]["modules"] += [("fprepare", ["_prepare_create", "_prepare_update", "_prepare_api_config", "prepare_resource_function"])]
PROPS["C06"]["modules"] += [("fprepare", ["_prepare_api_config"])]
for _p in ("C14", "C18", "C19", "C20"):
    PROPS[_p]["modules"] += ["ftprepare"]
    PROPS[_p]["level"] = "proof"
PROPS["C11"]["note"] = ("bounded: CEL's lexer and parser are celpy's lark grammar, which no contract within reach specifies; contracts cover that every value gets a text "
                        "(no exception) and the way from the evaluated value to the API")
PROPS["C14"]["note"] = "assumes the shape of celpy's parse trees"
PROPS["C18"]["note"] = "the function under test through its own contract; the mock API under contract"
PROPS["C19"]["note"] = "apart from the known findings; compared values without koreo directives are assumed usable"
PROPS["C20"]["note"] = "apart from the known findings; assumes fastjsonschema's verdict on the CRD schema"
