"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": hook},
    })


PL, SA, PM, SO, ME, FI, CO, CM, MA = ("subsetter/" + x for x in (
    "planner.py", "sampler.py", "plan_model.py", "solver.py", "metadata.py", "filters.py", "common.py", "config_model.py", "__main__.py"))

prop("C01", "A sample never contains a dangling foreign key",
     "Whenever planning and sampling succeed, every non-null foreign key of a sampled row that resolves in the source also resolves inside the sample, for every foreign key between two sampled tables (declared, inferred by the planner or added by configuration) that the configuration did not ask to ignore. "
     "This holds for composite keys, several keys between the same tables, nullable columns and tables without primary key, and for every combination of targets, target options (including random ones), table constraints, passthrough tables and selected tables that the planner accepts.",
     ["inputs", "configurations"], "every acyclic schema shape, data set, target set and target option up to the stated bounds",
     "The live tests sample five fixed data sets with one target option each; closure is a statement about every schema shape, target combination and NULL pattern, and multi-target configurations have no test at all.",
     [PL, PM, SO, SA, ME],
     [("order_graph: all keys to already sampled tables go in one direction", SO), ("_plan_table: union of references / intersection of references", PL), ("SQLStatementSelect.build / SQLStatementUnion.simplify", PM), ("_materialize_tables: one materialised random draw shared by all readers", SA)],
     ["destination rows after sample()", "JSON output files"])

prop("C02", "Each table gets exactly the rows its foreign keys call for",
     "Sampling starts from the targets, first completes what sampled rows depend on, then follows foreign keys backwards to every remaining connected table, then again to dependencies of those, and so on alternately. "
     "A table reached as a dependency receives exactly the rows referenced by rows sampled so far (plus its own selected rows if it is a target too); a table reached backwards receives exactly the rows that satisfy its table constraints and, for every foreign key it has into an already sampled table, refer to a sampled row. "
     "No other row is included, none is missing and none is duplicated.",
     ["inputs", "configurations"], "every acyclic schema on up to 4-5 tables, every target subset, saturated and exhaustive small data",
     "The expected plans in the tests pin five schemas; union/intersection semantics must hold for every graph, NULL pattern, uniqueness pattern and target mix.",
     [PL, PM, SO, SA],
     [("toposort_reachable layers", SO), ("_plan_table", PL), ("join vs EXISTS selection by half_unique and primary key", PM)],
     ["destination rows"])

prop("C03", "Target options and table constraints select exactly what they say",
     "A target's own rows are exactly those that satisfy all of its options together (every in list, every like pattern, the sql condition) and its table constraints; all overrides the other options. "
     "amount keeps exactly that many matching rows (all of them if fewer match), and percent keeps each matching row with exactly that probability, none at 0 and every one at 100. "
     "A constraint on a planned table that is not passthrough is either applied or rejected with an error, never silently dropped.",
     ["configurations", "inputs"], "every combination of up to two options from each kind, over rows covering NULLs, duplicates and pattern characters",
     "Tests use a single 'in' option; combinations, 'like', 'sql', 'percent', 'amount', 'all' and table constraints are never executed.",
     [PL, PM, CM], [("_plan_table target constraints", PL), ("where clause build/simplify", PM)], ["destination rows"])

prop("C04", "A plan exists exactly when keys can be ordered, and covers what is reachable",
     "Planning fails with a cycle error if and only if the considered foreign keys (not ignored, not involving passthrough or ignored tables) among tables connected to a target contain a cycle, and the error names tables that do form such a cycle. "
     "A successful plan contains exactly one query for every selected table connected to a target through foreign keys in either direction and for every passthrough table and nothing else, every query only refers to sampled tables that can be evaluated before it, and all references of one query follow foreign keys in one direction. "
     "The plan does not depend on the run, hash seed or the order of lists in the configuration.",
     ["inputs", "configurations"], "all directed graphs on up to 4 tables times all target sets (5 tables in the thorough tier)",
     "Seeded fuzz over DAGs and nine hand-written graphs sample the space; the iff over all graphs (including cyclic ones and unreachable parts) is not settled by them.",
     [SO, PL, ME], [("order_graph, toposort_reachable, CycleException", SO), ("_solve_order", PL), ("as_graph", ME)], ["SubsetPlan", "planner error text"])

prop("C05", "Identifier compaction renumbers consistently and loses nothing",
     "With compaction configured the sample is the uncompacted sample with each compacted column renumbered start_key, start_key+1, ... in primary key order and every foreign key into it (declared or inferred by the sampler, single or composite, several to one table, NULL) rewritten to the new number of the row it referred to (also where the referring column is itself referred to); a reference to a row outside the sample becomes NULL. "
     "All other columns, row counts and tables (passthrough tables in particular) are unchanged, and configurations that would renumber a column that is itself a foreign key are rejected.",
     ["inputs", "configurations"], "all compaction settings over a family of schemas, data sets and start keys, on every engine",
     "Two fixed data sets are compacted in the tests with start key 1; NULL references, double references, start keys, explicit columns and inferred keys are not.",
     [SA, ME], [("_get_compact_columns", SA), ("row_number in _materialize_tables/_copy_results", SA), ("_materialization_order reference counts", SA)], ["destination rows", "JSON output files"])

prop("C06", "Multiplicity produces disjoint, internally consistent copies",
     "With multiplicity m every multiplied table receives, for each sampled row and each i < m, exactly one row whose multiplied columns are value*m+i (NULL stays NULL) and whose other columns are unchanged; passthrough and ignored tables are written once. "
     "The multiplied columns are the primary keys not exempted, the configured extra columns, and every foreign key column (of a declared key or one inferred by the sampler) that refers to a multiplied column, whatever it is called, so each copy refers only to itself. Configurations where this is impossible (non-integral keys, un-multiplied table referring to multiplied column) are rejected.",
     ["inputs", "configurations"], "all multiplicity settings over a family of schemas and data sets",
     "No test configures multiplicity at all.",
     [SA], [("_get_multiplied_columns", SA), ("_multiply_column", SA)], ["destination rows", "JSON output files"])

prop("C07", "Merging adds a consistent copy and never touches existing rows",
     "A merge run leaves every existing destination row unchanged and adds every sampled row of each non-passthrough table with a non-negative integral single-column primary key shifted by one constant per table beyond all existing keys; every foreign key to such a key is shifted by the constant of the table whose key it is, so merged rows refer to merged rows. "
     "Passthrough rows are inserted only where their key is absent and references to them are not shifted. This holds for any sequence of sample, merge, compacted and multiplied runs and source changes.",
     ["histories", "inputs", "configurations"], "all sequences of runs up to a depth over schemas including shared-primary-key chains",
     "Tests run one merge after one sample and only check that it does not raise.",
     [SA], [("DatabaseOutput.prepare offsets", SA), ("output_result_set offsets", SA)], ["destination rows"])

prop("C08", "Conflict strategies resolve key conflicts exactly as configured",
     "When a sampled row's primary key already exists in the destination: 'error' fails the run, 'skip' leaves the existing row as it is, 'replace' overwrites exactly the columns being sampled (not omitted or computed ones) with the sampled values; rows without conflict are always inserted. "
     "Provided no other unique column conflicts, the result is the same on every engine, for composite keys, tables consisting only of key columns, and rows anywhere in a batch.",
     ["inputs", "configurations"], "all overlap patterns of existing and sampled rows x strategies x table shapes x engines",
     "No test samples into a table that already has a conflicting row.",
     [SA], [("ConflictInsert", SA), ("_flush_buffer", SA)], ["destination rows", "raised error"])

prop("C09", "A truncating run leaves exactly the fresh sample",
     "After a successful run with truncation the sampled destination tables hold exactly what the same run would have produced in an empty destination, whatever they held before. "
     "Tables that refer (directly or indirectly) to sampled tables are emptied, and every other destination table keeps its rows; running again changes nothing.",
     ["histories", "inputs"], "all sequences of destination pre-states and runs up to a depth",
     "No test passes truncate.",
     [SA, ME], [("DatabaseOutput.truncate", SA), ("close_backward", ME)], ["destination rows"])

prop("C10", "Created tables mirror the source and existing tables are left alone",
     "With creation enabled every planned table missing in the destination is created under its remapped name with the source's columns, nullability, primary key, unique and check constraints, indexes, and its foreign keys to other planned tables (pointing at their remapped names); tables that already exist are not altered. "
     "This works for every valid plan (as long as the destination keys among its tables contain no cycle), including plans that leave out tables referenced by foreign keys, and two source tables remapped to one name are rejected before anything is written.",
     ["inputs", "configurations"], "all subsets of pre-existing tables x remap rules x constraint shapes",
     "Tests only create into an empty schema and look at rows, not at constraints, and only with complete plans.",
     [SA], [("DatabaseOutput.create", SA), ("table_remap", SA)], ["destination catalog"])

prop("C11", "A failure anywhere is reported and recoverable",
     "If any database statement, commit or file write fails at any point of a run, the run reports failure (it never ends successfully with an incomplete sample). "
     "At every point where the destination is durable, including after a crash of the process, the rows in it contain no dangling foreign key, and running again with truncation after any failure produces exactly the result of an undisturbed run.",
     ["crash_points", "fault_sequences"], "every statement/commit of a run as fault or crash point",
     "No test injects a failure.",
     [SA], [("insert_order: parents first", SA), ("_flush_buffer commit per batch", SA)], ["destination rows after each commit", "exit status"])

prop("C12", "The source database is never modified",
     "Planning and sampling never change anything durable in the source database: no row, table, index, sequence or other schema object differs afterwards, whatever the configuration and whether or not the run fails. "
     "Only read access to the source's tables plus temporary tables is required.",
     ["configurations", "fault_sequences", "inputs"], "all features (materialisation, compaction, merge, truncate, create, filters, faults) on every engine",
     "Tests never look at the source after a run.",
     [SA, PL], [("TempTableCreator: TEMPORARY tables", SA), ("truncate/create only use the destination engine", SA)], ["full dump of source before and after"])

prop("C13", "A snapshot-isolated source yields one consistent snapshot",
     "With the source isolation level set to REPEATABLE READ or SERIALIZABLE on PostgreSQL, or SERIALIZABLE on MySQL, the sample equals the sample of one single committed state of the source, no matter which concurrent transactions commit between any two statements of the sampling run.",
     ["schedules"], "every placement of one or two writer transactions between the statements of the reader",
     "Tests have no concurrency.",
     [SA, CO], [("single source connection and transaction for materialisation and copying", SA), ("isolation_level", CO)], ["destination rows vs. source states"])

prop("C14", "Plan documents round-trip and drive the same sample",
     "Writing a plan with the plan command and sampling from the file gives the same sample as the combined subset command, and a written plan read back is the same plan, whatever strings, numbers or nested conditions it contains. "
     "The order of queries in a plan document does not affect the sample. This holds however the commands are invoked: with files, standard input and output or the default file names, at any verbosity; a command that cannot read its files fails and changes nothing.",
     ["configurations", "inputs"], "plans generated from a grid of planner configurations with hostile literals; all permutations of query order",
     "Tests never write or read a plan file and never run the command line.",
     [MA, PM], [("model_dump/yaml.dump and model_validate", MA), ("materialisation order", SA)], ["plan file", "destination rows"])

prop("C15", "Every sampled row arrives exactly once, unchanged",
     "A successful run delivers every row of every planned table exactly once with every value preserved, for any number of rows (below, at and above internal batch sizes), with any filters, multiplicity and output kind; the directory output contains exactly one JSON object per delivered row in one file per table, with the same content as the database output. "
     "If a planned table cannot be delivered because the destination lacks it or its columns, the run fails.",
     ["inputs", "configurations"], "row counts around every multiple of the batch size up to 3 batches x multiplicity; value alphabets per type; missing-table subsets",
     "Test tables have at most a few dozen rows, so no batch boundary is crossed; JSON output is never tested.",
     [SA], [("output_result_set buffering", SA), ("DirectoryOutput", SA)], ["destination rows", "JSON output files"])

prop("C16", "Filters change exactly the named columns, in order",
     "Filters configured for a table are applied to every row of that table in the listed order, each seeing the previous one's output; a filter replaces exactly its columns with values drawn from its documented range that do not depend on the original value (except zero, which keeps the type, plugins, and NULL under zero), omit removes exactly its columns, and multiplex applies the first matching condition's filter or none. "
     "All other columns keep their values and position, and filters naming unknown or duplicate columns are rejected.",
     ["inputs", "configurations"], "all filter chains up to length 3 over a 3-column row x value alphabet x conditions",
     "Each filter is unit-tested alone on one row; chains, multiplex, column subsets and end-to-end application are not.",
     [FI, SA], [("FilterViewChain", FI), ("FilterColumns.filter_view", FI), ("FilterMultiplex", FI)], ["filter_view output", "destination rows"])

prop("C17", "Generated keys never collide after sampling",
     "After any sequence of successful sampling runs, the next key the destination generates for an auto-increment column of a sampled table is larger than every key present in that table, provided that was the case before or the table was created by the tool. "
     "A run never moves a sequence backwards.",
     ["histories", "inputs"], "all sequences of sample/merge/truncate/conflict/insert/delete operations up to a depth on engines with sequences",
     "Tests never insert after sampling.",
     [SA], [("_autoincrement_get/_autoincrement_update", SA)], ["next generated key"])

prop("C18", "Settings resolve: later files over earlier, config over environment",
     "With several configuration files, mappings are merged key by key with later files winning, and anything else is replaced; for connection settings a (non-empty) value given in the configuration wins over the corresponding environment variable, which wins over the default. "
     "The resolved dialect governs everything that depends on the dialect (driver, default port, attached databases, isolation level, TLS arguments), and unknown keys in the source, planner or sampler sections are errors.",
     ["configurations"], "all subsets of settings present in file 1/file 2/environment over a small value domain",
     "No test uses the environment or more than one configuration file.",
     [CO, MA, CM], [("database_url/database_engine", CO), ("_dict_merge", MA), ("ForbidBaseModel", CM)], ["engine url and connect arguments", "resolved config"])

prop("C19", "Passthrough tables are copied in full and left untransformed",
     "Every passthrough table that exists is copied completely, regardless of targets and foreign keys, and its rows are never multiplied, compacted, shifted or restricted; rows that refer to it keep their values. "
     "A passthrough table with a foreign key to a table that is not passthrough is rejected.",
     ["configurations", "inputs"], "all assignments of passthrough to tables of small schemas x all sampler transformations",
     "One test marks one leaf table as passthrough.",
     [PL, SA], [("_check_passthrough_tables", PL), ("passthrough exemptions", SA)], ["destination rows"])

prop("C20", "A rejected configuration changes nothing",
     "Every configuration error (unknown filter columns, impossible compaction or multiplicity, remap collisions, malformed plan) is reported before the destination database or output files are changed in any way, even when truncation and creation are enabled.",
     ["configurations"], "all single and pairwise configuration errors x truncate x create",
     "Tests contain no invalid sampler configuration.",
     [SA, FI], [("_validate_filters and column analysis precede truncate", SA)], ["full dump of destination before and after"])

prop("C21", "All supported engines produce the same sample",
     "For the same schema, data, plan and sampler configuration the destination content is the same whether source and destination are SQLite, PostgreSQL or MySQL, including plans in which one query refers to the same sampled table several times.",
     ["configurations", "inputs"], "a family of schemas and features executed on every engine pair",
     "Tests run five data sets per engine; no mixed pairs and few multi-reference plans.",
     [SA, ME, PM], [("temporary table copies for MySQL", SA), ("sql_build_context", ME)], ["destination rows"])

prop("C22", "Hand-written plan documents mean what they say",
     "Every plan built from the documented syntax tree (comparison, like, in with literal lists or sub-statements, negation, and/or nesting including empty lists, true/false, column lists, limits, joins to sampled tables of either kind, unions, direct SQL) delivers exactly the rows that its SQL meaning (three-valued logic for NULL) denotes. "
     "This holds for any table, including one that other queries refer to as sampled.",
     ["programs", "inputs"], "all condition trees up to depth 3 over a small leaf alphabet, all join/union shapes",
     "Only planner-generated plans with one or two forms are exercised.",
     [PM, SA], [("SQLWhereClause*.build, SQLStatement*.build", PM), ("TempTableCreator", SA)], ["destination rows"])

prop("C23", "Requested TLS verification is enforced",
     "When TLS is required a connection is only made over TLS; with server verification 'cert' only to a server whose certificate chains to the given root certificate, with 'identity' additionally only if the certificate matches the host name, and with 'none' and no root certificate to any TLS server. A verification level that does not exist is never taken for a weaker one.",
     ["configurations"], "all combinations of require/verify/root certificate/host name x engines against real TLS servers",
     "No test configures TLS.",
     [CO], [("SSLConfig.get_connect_args", CO)], ["success or failure of connecting"])

prop("C24", "Foreign key configuration yields exactly the intended relationships",
     "The relationships followed are the declared foreign keys plus, if inference is enabled, a key from every column whose name is the single-column primary key of exactly one selected table, that table being another one (within the schema, or across all schemas for 'all'), minus those between ignored table pairs, plus the configured extra keys. "
     "Selected tables are those matching a pattern plus, unless disabled, everything they refer to; references to tables outside that set do not restrict the sample or prevent planning.",
     ["configurations", "inputs"], "all subsets of ignore/extra/infer/select settings over small schemas",
     "No test uses inference, ignored keys, extra keys or include_dependencies.",
     [ME, PL], [("infer_missing_foreign_keys", ME), ("_remove_ignore_fks/_add_extra_fks", PL), ("from_engine closure", ME)], ["destination rows", "plan tables"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
