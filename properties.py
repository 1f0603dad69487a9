# Source of /verif/properties.jsonl (run: python3 properties.py > properties.jsonl)
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": x, "meaning": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A dynamic filter selects exactly the rows its predicates describe",
  "Whatever sequence of calls builds a filter (column comparisons, null and boolean tests, list membership, array membership, text search, AND/OR connectors and nested groups), the WHERE clause it renders is accepted by PostgreSQL and selects exactly the rows for which the boolean composition of those calls is true. Consecutive predicates are joined by AND unless a connector was given, AND binds tighter than OR, a nested group is evaluated as a unit, and connectors or groups with nothing to connect have no effect.",
  ["inputs", "histories"], "all finite call sequences over the exported filter-building methods, all supported operators and value types, all rows (including NULLs)",
  "The tests render a dozen hand-written call sequences and compare text; the space of call sequences, operator/value combinations and nesting depths is unbounded and the meaning of the text on rows with NULLs is never evaluated.",
  ["filter/filter.go", "filter/convenience.go"],
  [("predicate and connector accumulation", "filter/filter.go Constructor.Col/And/Or/TextSearch"), ("list predicates", "filter/convenience.go ColIn*/ColAny*"), ("rendering", "filter/filter.go ToSQL")],
  state=["accumulated predicate tree"], observe=["rows returned by PostgreSQL for the rendered clause"])

p("C02", "A filter's ordering and paging return exactly the requested slice of rows",
  "The rows a filter returns are ordered by its sort keys in the order they were added, with the requested direction and placement of NULLs, and are cut to the most recently set positive limit and offset, where a page number means the page-th block of as many rows as the limit in force when it is set. Zero or negative limits, offsets and pages change nothing, and the counting form of a filter counts every row its predicates select regardless of ordering, limit and offset.",
  ["inputs", "histories"], "all interleavings of predicate, ordering, limit, offset, page and rendering calls with any integer arguments",
  "The tests render single fixed combinations; orderings of the setters, repeated setters, boundary numbers and the agreement of the counting form are not explored.",
  ["filter/filter.go"],
  [("sort keys", "filter/filter.go OrderBy/OrderByV2"), ("paging", "filter/filter.go Limit/Offset/Page"), ("count form", "filter/filter.go CountFilter")],
  state=["sort key list, limit, offset"], observe=["ordered rows returned by PostgreSQL"])

p("C03", "Filter placeholders always line up with their arguments",
  "For every filter and every starting position n, the rendered clause contains exactly one placeholder per returned argument, numbered n+1, n+2, ... in order of appearance, and each argument is the value of the predicate in which its placeholder stands. Rendering changes nothing: rendering again, from another position or in counting form, yields the same predicates and arguments, and calls made in between are simply added.",
  ["inputs", "histories"], "all call sequences, all starting positions for which the placeholders exist, all interleavings of rendering with further calls",
  "Tests check one starting position for a few filters; alignment over mixed predicate kinds (which contribute zero, one or many arguments) and over repeated rendering is not sampled.",
  ["filter/filter.go", "filter/convenience.go", "gosql.go"],
  [("ordinal numbering", "filter/filter.go sqlWriter; gosql.go OrdinalParameters"), ("list expansion", "gosql.go InValueList")],
  observe=["rendered clause and argument list"])

p("C04", "Textual filter and sort expressions mean what they say",
  "A filter expression received as text selects exactly the rows its rules, AND/OR separators and parentheses describe, and a sort expression orders by exactly the listed keys in order, a leading hyphen meaning descending. In strict mode a key that is not mapped is reported as an error naming that key; otherwise rules and sort items with unmapped keys are treated as absent and the rest keeps its meaning and stays acceptable to PostgreSQL. Malformed filter expressions are reported as errors and never panic.",
  ["inputs", "histories"], "all expression strings, all key maps, strict mode on and off, with value converters that succeed or fail",
  "Tests parse a handful of well-formed strings with fully mapped keys and compare rendered text; unmapped keys in combination with connectors and groups, and malformed inputs, are not covered.",
  ["filter/filter.go"],
  [("expression parsing", "filter/filter.go UnmarshalFQL"), ("sort parsing", "filter/filter.go UnmarshalSort"), ("strict mode", "filter/filter.go StrictSwitch")],
  observe=["rows returned by PostgreSQL, returned errors"])

p("C05", "Generated methods report every failure and never a false success",
  "Whenever the database or a user hook fails while a generated method runs (executing the query, advancing, scanning, reading the affected-row count, finishing the result set, or the caller's iterator returning an error), the method returns a non-nil error that is the failure itself or whatever the query's error handler returns for it. An error handler is consulted exactly once per failed execution, with the original failure and, where it asks for it, the executed statement text, query kind, query name and query value; when nothing fails the method returns nil and handlers are not told of any failure.",
  ["fault_sequences", "programs"], "every query kind and result shape, every combination of handler and hook, every position in the execution at which a failure can be injected",
  "The existing tests compare generated source text with golden files and never execute it; which failure points are propagated is a property of executions under faults.",
  ["internal/generator/generator.go", "gosql.go"],
  [("error paths of the generated body", "internal/generator/generator.go makeErrorHandler/buildExecFunc and friends"), ("handler interfaces", "gosql.go ErrorHandler/ErrorInfoHandler")],
  observe=["returned error, handler invocations"])

p("C06", "Each result row is delivered exactly once, in order, and the cursor is released",
  "A generated method that yields rows delivers every row the database returned exactly once and in order, each into its own record with every column value in the field declared for it, after running the record's after-scan hook exactly once. It stops at the first failure, delivering nothing after it, and on every path the result set is closed when the method returns; a single-row method yields the first row or reports that there is none.",
  ["fault_sequences", "programs"], "every row-yielding query kind and result shape, every number of rows, every failure position, with and without hooks, handlers and contexts",
  "Golden-file comparison never runs the code, so neither delivery order, aliasing between records, hook counts nor cursor release on error paths are observed.",
  ["internal/generator/generator.go"],
  [("scan loops", "internal/generator/generator.go"), ("after-scan hook", "gosql.go AfterScanner")],
  observe=["driver-level cursor events, delivered records"])

p("C07", "Generated reads return exactly the rows and values described",
  "Executing a generated select returns exactly the rows of the described relation and joins that satisfy the described condition (conjunction, disjunction and nesting of field, column, literal, null, list, range, array and function-modified predicates), with every value in its field, in the described order and cut to the described limit and offset. Count, existence and non-existence queries report the size, non-emptiness or emptiness of that same set.",
  ["programs", "inputs", "histories"], "all accepted select descriptions, all field values, all table contents",
  "Golden files fix the text for a few dozen descriptions; nothing evaluates the text on data, and combinations of clauses not in the golden set are unchecked.",
  ["internal/analysis/analysis.go", "internal/postgres/postgres.go", "internal/generator/generator.go"],
  [("where parsing", "internal/analysis/analysis.go"), ("predicate rendering", "internal/generator/generator.go"), ("argument list", "internal/generator/generator.go")],
  observe=["records filled by the generated method"])

p("C08", "Generated updates and deletes change exactly the rows and columns described",
  "Executing a generated update or delete changes exactly the rows selected by its condition, its filter, its joins, or its primary key fields, and in those rows exactly the writable columns described, each to the value of the field declared for it; every other row and column keeps its value. An update or delete that selects rows by nothing at all is produced only when the description explicitly asks for all rows.",
  ["programs", "inputs", "histories"], "all accepted update and delete descriptions, all field values, all table contents",
  "Golden files never execute a statement, so a swapped argument, a dropped conjunct or a missing restriction is invisible outside the sampled descriptions.",
  ["internal/analysis/analysis.go", "internal/generator/generator.go"],
  [("set list and key predicate", "internal/generator/generator.go"), ("all-rows directive", "internal/analysis/analysis.go")],
  observe=["table contents after execution, affected-row count"])

p("C09", "Generated inserts store and resolve exactly what was described",
  "Executing a generated insert adds one row per record, in one statement, with each writable column set to its field's value or to the column default where the description asks for it, and nothing else changes. On a conflict the described action happens and only that: conflicting rows are skipped, or the listed columns of the existing row take the values of the new record; rows handed back by returning or result clauses are the stored rows, in the record or result field they belong to.",
  ["programs", "inputs", "histories"], "all accepted insert descriptions (single and multi-record, defaults, conflict targets and actions, returning and result shapes), all field values and table contents",
  "Golden files never execute the statement; column/argument misalignment or a wrong conflict target shows up only on data.",
  ["internal/analysis/analysis.go", "internal/generator/generator.go"],
  [("value lists", "internal/generator/generator.go"), ("conflict clause", "internal/generator/generator.go, internal/postgres/postgres.go"), ("returning", "internal/generator/generator.go")],
  observe=["table contents and returned records"])

p("C10", "Column options restrict exactly the operations they name",
  "A field marked as not readable is never read back, one marked as not writable (or not insertable, or not updatable) is never written by that operation, and one marked as excluded from filtering is not reachable through filters, unless the description explicitly forces the column; every other operation on the field is unaffected. Options that turn empty values into NULL, NULL into a given or empty value, JSON/XML encode the value, or add to the stored value apply to exactly the columns carrying them.",
  ["programs", "inputs"], "all combinations of column options with all query kinds and force/default directives, for plain and nested fields",
  "Tests parse option strings for a few fields and fix golden text; the cross product of options, query kinds and nesting is not sampled and its effect on stored data never observed.",
  ["internal/analysis/fieldmode.go", "internal/analysis/analysis.go", "internal/postgres/postgres.go", "internal/generator/generator.go"],
  [("field modes", "internal/analysis/fieldmode.go"), ("mode checks per operation", "internal/postgres/postgres.go"), ("option rendering", "internal/generator/generator.go")],
  observe=["stored column values and filled fields"])

p("C11", "Every accepted description yields code that compiles and a statement that runs",
  "For every query description the tool accepts, the generated file compiles together with the package it was generated for, and every statement the generated method issues is accepted by the database it was checked against with precisely the arguments passed: as many as the statement has placeholders, each of a type its placeholder admits.",
  ["programs", "configurations"], "all accepted combinations of query kind, result shape, clauses, directives, hooks and generation settings",
  "Golden tests check a fixed set of inputs against stored text and never compile or prepare the result; failures appear in clause combinations.",
  ["internal/generator/generator.go", "internal/postgres/postgres.go", "internal/analysis/analysis.go"],
  [("statement assembly", "internal/generator/generator.go"), ("imports of the generated file", "internal/generator/generator.go")],
  observe=["go build of the generated package; PREPARE of every issued statement"])

p("C12", "Contradictory or dangerous descriptions are refused with a diagnostic",
  "A query description that combines clauses its query kind does not have, repeats or contradicts a clause, refers to relations, columns, functions, indexes or constraints that do not exist or do not fit, or malforms a directive is refused with a diagnostic that identifies the offending target (by its name or by the file and line of what is wrong), and nothing is generated for it; well-formed descriptions are accepted. The tool reports every such case as an error and never crashes.",
  ["programs"], "all combinations of directives and clauses with query kinds; all reference positions with existing, missing, ambiguous and mistyped names",
  "Tests list about two hundred bad structs; the legality table over kind x clause x clause and references in every position is much larger, and a missing refusal is only visible on an unsampled combination.",
  ["internal/analysis/analysis.go", "internal/analysis/error.go", "internal/postgres/postgres.go", "internal/postgres/errors.go"],
  [("legality of directives and fields", "internal/analysis/analysis.go"), ("catalog checks", "internal/postgres/postgres.go")],
  observe=["verdict and diagnostic of the tool"])

p("C13", "Accepted field and column type pairs carry values faithfully",
  "If the tool accepts a Go field type for a column type, every representative value of the field that fits the column is stored and read back equal through the generated code, without a driver type error, and the same holds when the field is used to match the column in a condition. Pairs of a scalar Go kind with a column type of another family are refused.",
  ["programs", "inputs"], "all pairs of supported Go field types and PostgreSQL column types, all nullability and pointer variants, representative and boundary values",
  "Tests look up selected entries of the compatibility table; whether each accepted pair actually round-trips through the driver and the chosen converters is not executed.",
  ["internal/postgres/compatibility.go", "internal/postgres/postgres.go", "pgsql"],
  [("compatibility table", "internal/postgres/compatibility.go"), ("converter selection", "internal/postgres/postgres.go")],
  observe=["values read back through generated code"])

p("C14", "A failed run leaves every file untouched; a successful one writes only outputs",
  "If any target of a run cannot be analysed, checked or generated, the tool exits with a non-zero status and a diagnostic, and no file is created, changed or removed. If the run succeeds, exactly one output file exists per input file with targets, named by the configured pattern next to its input, each holding complete formatted code, and no other file, in particular no input file, is modified.",
  ["histories", "configurations", "fault_sequences"], "all directory trees and sequences of runs, with failing targets at any position, pre-existing outputs, unwritable or colliding output names",
  "No test exercises the command; ordering of checking against writing, and what happens to earlier outputs when a later step fails, are untested.",
  ["internal/command/command.go", "cmd/gosql/main.go"],
  [("generate-then-write ordering", "internal/command/command.go Run"), ("output naming and writing", "internal/command/command.go outFilePath/writeOutFile")],
  state=["file tree"], observe=["file tree before and after, exit status"])

p("C15", "Exactly the selected targets are processed",
  "A run generates code for exactly those struct types whose name begins with a query or filter prefix in any letter case, that do not carry the ignore directive, and that lie in a selected file: a file of the working directory, or of any package below it when recursion is on, that is named or matched by the file options when any are given.",
  ["configurations", "inputs"], "all directory layouts, type names, ignore placements and file selections",
  "There are no tests for target selection.",
  ["internal/search/search.go", "internal/config/config.go", "internal/command/command.go"],
  [("name matching and ignore directive", "internal/search/search.go"), ("file selection", "internal/config/config.go FileFilterFunc")],
  observe=["set of generated methods"])

p("C16", "Settings resolve as flag, then config file, then default, and take effect",
  "For every setting the effective value is the command-line flag if given, otherwise the value in the explicitly named config file or the one at the project root, otherwise the documented default, independently for each setting. An effective setting has its documented effect on the generated code and invalid values are refused before anything is written.",
  ["configurations"], "all combinations of settings given by flag, by file or not at all, in any file location",
  "There are no tests of the configuration package; golden tests vary three settings in memory and never go through flags or files, so precedence across sources is unobserved.",
  ["internal/config/config.go", "internal/config/types.go", "cmd/gosql/main.go"],
  [("flag parsing", "internal/config/config.go ParseFlags"), ("file discovery and decoding", "internal/config/config.go ParseFile, internal/config/types.go"), ("validation", "internal/config/config.go Validate")],
  observe=["generated files, exit status"])

p("C17", "Output for a target does not depend on its neighbours and is reproducible",
  "The code generated for a target, and whether the target is accepted, depend only on the target, the types it refers to, the database catalog and the settings: running it alone, together with any other targets, in any file or package order, or again over its own earlier output gives the same method. Repeated runs over an unchanged tree produce byte-identical files.",
  ["histories", "configurations"], "all sets and orders of targets sharing record types within and across packages; all repeated runs",
  "Each golden test looks at one file in one run; interference through state shared between targets of one run needs specific pairs of targets.",
  ["internal/analysis/analysis.go", "internal/postgres/postgres.go", "internal/generator/generator.go", "internal/command/command.go"],
  [("shared record-type cache", "internal/analysis/analysis.go"), ("catalog cache", "internal/postgres/postgres.go"), ("import collection", "internal/generator/generator.go")],
  state=["process-wide caches"], observe=["generated files"])

p("C18", "Every value converter round-trips through the database",
  "For every supported PostgreSQL type and every Go type paired with it, a value written through its converter is stored by PostgreSQL as that value, and scanning what PostgreSQL returns yields an equal Go value, for every element count and every content including quotes, backslashes, delimiters, braces, whitespace, empty and NULL-looking text and unbounded ranges. NULL is stored for nil and read back as nil or the documented zero value.",
  ["inputs"], "all converter pairs, all element sequences over the characters significant to the text formats, all lengths and NULL placements the Go type can express",
  "Each converter is tested with two or three fixed values; parser errors live in combinations of adjacent special characters, positions and emptiness.",
  ["pgsql"],
  [("text-format parsers", "pgsql/convert_util.go"), ("per-type converters", "pgsql/*.go")],
  observe=["values stored by PostgreSQL and values scanned back"])

p("C19", "Scanning is pure: values are independent and bad input is an error",
  "A scanned value never changes afterwards, whatever is scanned later and even if the driver reuses its buffers, never shares storage with another scanned value, and replaces whatever the destination held before. Input of a Go type the converter does not handle, and text with an element that cannot be parsed, is reported as an error; no input makes a converter panic.",
  ["histories", "inputs"], "all converters, all sequences of scans into fresh or reused destinations with the source buffer overwritten between them, all truncations and corruptions of valid text",
  "Tests scan one value into one fresh variable and inspect it immediately; retention of driver memory, stale destination contents and malformed input are not tested.",
  ["pgsql"],
  [("scanners", "pgsql/*.go Scan"), ("text-format parsers", "pgsql/convert_util.go")],
  observe=["destination values after later scans"])

p("C20", "Generated filters expose exactly the filterable columns under documented keys",
  "A generated filter type maps exactly the filterable fields of its record, nested and embedded ones included, to their columns, under keys built from the configured tag (or field names), joined with the configured separator or reduced to their last element, and marks nullability and value conversion per column; its typed per-field methods constrain exactly their own column with exactly the given value. The text-search column, when declared, is the one searched.",
  ["programs", "configurations"], "all record shapes (nesting, embedding, excluded and aliased fields, tags present, absent or dashed) and all key settings",
  "Eight golden files cover a few settings; the key construction over nesting x tag x separator x base is not enumerated and generated filters are never executed.",
  ["internal/generator/generator.go", "internal/analysis/analysis.go", "filter/filter.go"],
  [("key construction", "internal/analysis/analysis.go"), ("filter code generation", "internal/generator/generator.go")],
  observe=["filter keys accepted in strict mode; rows selected"])

if __name__ == "__main__":
    for x in P:
        print(json.dumps(x))
