package main

const refAssumption = "the reference evaluator of the harness reads the generated document as the PMML 4.3 specification does, within the fragment the package supports; where it is out of its depth (ill-conditioned numbers, near ties, fragments that are not claimed) the case is skipped and counted as out of domain"

const refRule = "a random document and row are generated from (seed, property, case); the decoded, compiled model's prediction is compared with an independent reference evaluation of the document text. Non-trivial: the prediction was decided by the reference, agreed, and its evaluation went through at least two kinds of events besides the predicate True; distinct by document text and row"

const selfRule = "non-trivial and distinct by document text and rows (or operations)"

func allProps() []*Prop {
	ref := []string{refAssumption}

	return []*Prop{
		{id: "C01", quick: 60000, thorough: 1200000, run: runPredicates, rule: refRule, assumptions: ref,
			minEvents: []string{"pred_SimplePredicate_T", "pred_SimplePredicate_U", "pred_SimpleSetPredicate_T", "pred_SimpleSetPredicate_U", "pred_CompoundPredicate_T", "pred_CompoundPredicate_U", "compound_and", "compound_or", "compound_xor", "compound_surrogate", "boundary"}},
		{id: "C02", quick: 50000, thorough: 800000, run: runTreeComplete, rule: refRule, assumptions: ref,
			minEvents: []string{"leaf", "dist", "onehot", "no_true_child_last", "no_true_child_null", "tree_null", "score_is_not_the_most_probable", "score_beside_distribution"}},
		{id: "C03", quick: 50000, thorough: 800000, run: runTreeStop, rule: refRule, assumptions: ref,
			minEvents: []string{"unknown_none", "unknown_lastPrediction", "unknown_nullPrediction"}},
		{id: "C04", quick: 50000, thorough: 800000, run: runTreeDefault, rule: refRule, assumptions: ref,
			minEvents: []string{"default_child", "no_default_child", "all_probabilities_zero"}},
		{id: "C05", quick: 50000, thorough: 700000, run: runTreeCombine, rule: refRule, assumptions: ref,
			minEvents: []string{"unknown_weightedConfidence", "unknown_aggregateNodes", "combined_T", "combined_U"}},
		{id: "C06", quick: 60000, thorough: 1200000, run: runExpressions, rule: refRule, assumptions: ref,
			minEvents: []string{"arith_missing", "apply_default", "mapMissingTo", "if_then", "if_else", "derived_missing", "error_as_expected", "if_missing_condition", "row_holds_a_derived_name"}},
		{id: "C07", quick: 60000, thorough: 1200000, run: runMapValues, rule: refRule, assumptions: ref,
			minEvents: []string{"map_hit", "map_default", "map_missing", "map_self", "map_as_operand", "numeric_key", "derived_key", "missing_key_with_default"}},
		{id: "C08", quick: 80000, thorough: 2000000, run: runRegression, rule: refRule, assumptions: ref,
			minEvents: []string{"category_hit", "link_logit", "link_exp", "link_cloglog", "link_cauchit", "error_as_expected"}},
		{id: "C09", quick: 80000, thorough: 2000000, run: runClassifier, rule: refRule, assumptions: ref,
			minEvents: []string{"classify_softmax", "classify_logit", "classify_cauchit"}},
		{id: "C10", quick: 40000, thorough: 500000, run: runEnsemble, rule: refRule, assumptions: ref,
			minEvents: []string{"ensemble_sum", "ensemble_average", "segment_F", "segment_U", "rescale", "no_segment", "segment_without_prediction", "class_by_value", "score_by_target", "ambiguous_score", "sum_of_labels"}},
		{id: "C11", quick: 40000, thorough: 600000, run: runSelect, rule: refRule, assumptions: ref,
			minEvents: []string{"segment_T", "segment_F", "segment_U", "null_prediction"}},
		{id: "C12", quick: 40000, thorough: 600000, run: runReplacement, rule: refRule, assumptions: ref,
			minEvents: []string{"replaced", "nothing_to_replace"}},
		{id: "C13", quick: 60000, thorough: 1000000, run: runVerify, assumptions: ref,
			rule:      "a random document is given verification records computed by the reference, then at most one of them is changed by a known amount relative to the declared precision; the outcome of verification is compared with what that change calls for. Distinct by document text",
			minEvents: []string{"accepted", "rejected", "within", "beyond", "beyond_negative", "beyond_coarse", "wrong_label", "similar_label", "numeric_label", "many_records", "both_within_zero", "one_beyond_zero", "zero_by_default", "record_of_an_error", "record_of_no_prediction"}},
		{id: "C14", quick: 20000, thorough: 500000, run: runRepresentation,
			rule:        "random documents; each row is evaluated once with plain Go values and again with other Go representations of the same values, and the predictions are compared bit by bit; the conversions of values are checked against the values. Non-trivial and distinct by document text and the second row",
			assumptions: []string{"two Go values denote the same value when they convert into each other exactly"},
			minEvents:   []string{"as_string_for_double", "as_string_for_integer", "as_string_for_boolean", "as_int_for_integer", "as_uint64_for_integer", "as_int_for_double", "as_float32_for_double", "conversion", "spelled_otherwise"}},
		{id: "C15", quick: 20000, thorough: 500000, run: runDeterminism, setup: fidSetup,
			rule:      "random documents, each decoded and built three times; rows are evaluated repeatedly, in a random order, through all three, and every outcome is compared bit by bit with the first one for its row, also when other things (elements, unsupported, mutilated and cut documents, failing records, odd values) are asked of the package in between, which have to be answered alike each time; " + selfRule,
			minEvents: []string{"in_between", "repeated_equal"}},
		{id: "C16", quick: 1500, thorough: 20000, run: runConcurrent, shards: 60, setup: fidSetup,
			rule:        "race-detector build: 2 to 12 goroutines share one to three models, their documents and rows, and decode, build, verify and evaluate at once, on 1 to 8 processors, while they decode elements of every kind, ask for unsupported and mutilated documents, read arrays and convert values; every answer is compared bit by bit with one obtained alone. Distinct by document text and number of goroutines",
			assumptions: []string{"the Go race detector reports only real races; it sees the interleavings that occurred"},
			minEvents:   []string{"concurrent_element", "concurrent_records", "concurrent_unsupported", "concurrent_steps_on_shared", "records_not_met", "concurrent_evaluate", "concurrent_decode", "concurrent_build", "concurrent_verify", "several_documents_at_once", "with_verification_records"}},
		{id: "C17", quick: 20000, thorough: 500000, run: runNoEffects, setup: fidSetup,
			rule:      "random documents and random histories of 16 operations (build, compile, validate, verify, evaluate, take the steps of an evaluation, overwrite results and rows, use the package for something else); after steps everything reachable from the decoded document is compared with its state before, the caller's row likewise, and each prediction bit by bit with the first one; " + selfRule,
			minEvents: []string{"steps", "something_else", "records_not_met", "operations", "with_verification_records"}},
		{id: "C18", quick: 150000, thorough: 3000000, run: runFidelity, setup: fidSetup,
			minEvents:   []string{"constant_decoded", "found_by_name", "not_found_by_name"},
			rule:        "random element trees over a frozen table of the elements and attributes the package decodes; each attribute, text and child found in the decoded value is compared with the document. Distinct by document text",
			assumptions: []string{"the table was taken from the package's types and corrected against the PMML 4.3 schema by hand"}},
		{id: "C19", quick: 12000, thorough: 300000, run: runDisguise,
			rule:      "random documents rewritten with comments, character references, CDATA, processing instructions, prefixes, other attribute orders, extensions, unknown elements and attributes; predictions are compared bit by bit with the plain document's. And truncated documents, which have to be refused; " + selfRule,
			minEvents: []string{"comment", "cdata", "character_reference", "prefixed", "unknown_element", "unknown_attribute", "extension", "truncated"}},
		{id: "C20", quick: 300000, thorough: 6000000, run: runArrays,
			rule:      "random member lists written as array content with random quoting, escaping and white space, read back as integers, reals and strings, by several readers; and content that is no such list. Non-trivial and distinct by content",
			minEvents: []string{"read_int", "read_real", "read_string", "quoted", "escaped", "refused_other_type"}},
		{id: "C21", quick: 40000, thorough: 800000, run: runRefuse,
			rule:      "random documents into which one thing is put, on a path which evaluation is bound to take, that the package cannot evaluate; decoding, building or evaluating has to report an error. Distinct by document text",
			minEvents: []string{"refused_to_build", "refused_to_evaluate", "several_scores"}},
		{id: "C22", quick: 60000, thorough: 1000000, run: runCorpus, setup: corpusSetup, rule: "the documents in the repository's testdata, over rows drawn around their own thresholds, categories and keys, compared with the reference; " + selfRule, assumptions: ref,
			minEvents: []string{"ensemble_sum", "ensemble_average", "dist", "map_hit", "boundary"}},
		{id: "C23", quick: 600, thorough: 12000, run: runSteady, setup: fidSetup,
			rule:        "random documents; live heap after garbage collection before and after thousands of evaluations with ever new values, and before and after hundreds of rebuilt models, decoded documents, elements, refused documents, failed verifications and conversions; distinct by document text",
			assumptions: []string{"growth below about six bytes an evaluation is not noticed"},
			minEvents:   []string{"steady_element", "steady_unsupported", "steady_records", "steady_array", "steady_value", "steady", "steady_rebuilding", "steady_decoding", "numbers_as_strings", "strings_that_are_no_numbers", "ever_new_names", "evaluation_errors"}},
		{id: "C24", quick: 60000, thorough: 1000000, run: runHostile, setup: fidSetup,
			rule:      "random documents with zero to eight random mutations of their structure, attributes or bytes, built and evaluated with rows of arbitrary Go values; every call has to return. Distinct by document text",
			minEvents: []string{"built", "refused", "evaluated", "evaluation_error", "bytes_changed"}},
		{id: "C25", quick: 4000, thorough: 100000, run: runBounded,
			rule:        "documents with expressions, derived fields, predicates, nodes, segments or foreign elements nested 40 to 280 deep; each operation has to end within 40 s (it takes milliseconds), and predictions are compared with the reference. Distinct by document text",
			assumptions: []string{"a machine that is up to ten thousand times slower than this one"},
			minEvents:   []string{"evaluated_expression", "evaluated_derived_fields", "evaluated_predicate", "evaluated_tree_weightedConfidence", "evaluated_tree_aggregateNodes", "evaluated_nested_sum", "evaluated_nested_modelChain", "evaluated_foreign", "row_of_nothing", "compared_with_reference"}},
		{id: "C26", quick: 30000, thorough: 600000, run: runExtras,
			rule:      "random documents and rows; each row is evaluated again with further names the document does not mention, or a value for the target, an output or a derived field, and the predictions are compared bit by bit. Distinct by document text and row",
			minEvents: []string{"extra_values", "target_in_row", "result_in_row", "derived_in_row"}},
		{id: "C27", quick: 15000, thorough: 300000, run: runSeveral,
			rule:      "random documents with two to seven models; each model's predictions are compared bit by bit with those of the same model in a document of its own. Distinct by document text, row and model",
			minEvents: []string{"model_1_of_2", "model_2_of_2", "model_3_of_3", "stranger_refused", "stranger_evaluated"}},
		{id: "C28", quick: 20000, thorough: 400000, run: runEntryPoints,
			rule:      "random documents; predictions after decoding in other ways, building with the constructor of the model's kind or from the model's element by itself, and evaluating step by step through HandleExpression, HandleInput and the Evaluate methods, compared bit by bit with NewModel and Evaluate. Distinct by document text, row and way of decoding",
			minEvents: []string{"decoded_unmarshal", "decoded_byte_by_byte", "decoded_in_halves", "decoded_data_with_eof", "decoded_second_on_decoder", "decoded_followed_by_junk", "decoded_inside_an_envelope", "constructor_of_its_kind", "element_by_itself", "derived_fields_by_hand", "evaluate_regression", "evaluate_binary", "evaluate_multiclass"}},
		{id: "C29", quick: 40000, thorough: 800000, run: runOrder,
			rule:      "random documents, each with a copy in which everything that may stand in any order stands in another; predictions are compared up to rounding. Distinct by both texts and row",
			minEvents: []string{"reordered_data_fields", "reordered_values", "reordered_mining_fields", "reordered_outputs", "reordered_targets", "reordered_predictors", "reordered_factors", "reordered_tables", "reordered_operands_and", "reordered_operands_or", "reordered_operands_xor", "reordered_members", "reordered_table_rows", "reordered_cells", "reordered_keys", "reordered_segments", "reordered_summands_and_factors", "reordered_derived_fields", "same_prediction", "null_prediction"}},
		{id: "C30", quick: 40000, thorough: 800000, run: runNames,
			rule:      "random documents, each with a copy in which fields, classes, node ids and strings have other names, exchanged ones and odd ones among them; the predictions have to be each other's under the renaming, bit by bit. Distinct by both texts and row",
			minEvents: []string{"renamed_fields", "renamed_classes", "renamed_nodes", "renamed_strings", "same_prediction"}},
		{id: "C31", quick: 40000, thorough: 800000, run: runSame,
			rule:      "random documents, each with a copy that says the same in other words; predictions are compared up to rounding. Distinct by both texts and row",
			minEvents: []string{"average_over_each_twice", "coefficient_in_halves", "derived_elsewhere", "grouped_and", "grouped_or", "grouped_xor", "indirect_by_dictionary", "indirect_by_model", "indirect_by_segment", "logit_as_softmax", "neutral_operation", "node_again", "node_between", "node_in_two", "null_prediction", "only_segment", "other_unit_of_counts", "power_as_product", "rescaled_by_nothing", "respelled_constant", "respelled_literal", "respelled_number", "said_otherwise_and", "said_otherwise_equal", "said_otherwise_greaterOrEqual", "said_otherwise_greaterThan", "said_otherwise_isIn", "said_otherwise_isMissing", "said_otherwise_isNotIn", "said_otherwise_isNotMissing", "said_otherwise_lessOrEqual", "said_otherwise_lessThan", "said_otherwise_notEqual", "said_otherwise_or", "said_otherwise_surrogate", "same_prediction", "unreachable_node", "unreachable_segment", "wrapped_predicate"}},
	}
}
