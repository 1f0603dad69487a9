c("C01 C02 C03", "filter.py", "TLA+ state machine of the filter builder (TLC, exhaustive small + seeded simulation), behaviours replayed into filter.Constructor and judged on PostgreSQL",
  "Every behaviour TLC enumerates up to the listed bounds, and a seeded sample of long ones, is executed against the real builder; each rendering is compared with the model's selected rows, order, window and arguments by running it on PostgreSQL over a table of 48 rows with NULLs. Assumes PostgreSQL and the small-domain table are representative.")
c("C04", "filter.py", "TLA+ grammar/semantics state machine of filter and sort expressions (TLC), texts replayed into UnmarshalFQL/UnmarshalSort and judged on PostgreSQL",
  "All token sequences up to the listed length over a reduced alphabet, all single rules, all short sort lists, plus a seeded sample of long expressions are parsed by the real code; acceptance, error class and selected rows must match the model.")
c("C05 C06", "exec.py", "TLA+ state machine of a generated method's protocol with its connection, hooks and handlers (TLC, exhaustive), behaviours replayed into generated methods over a scripted database/sql driver",
  "Every behaviour TLC enumerates over the listed query shapes (operation, output kind, destination, pointer, hook, handler, context, restriction) and failure points is executed by a method freshly generated for that shape; returned error, handler calls, hook calls, deliveries and cursor release must match. Result sets are bounded as listed; the driver is a conforming fake.")
c("C18", "codec.py", "TLA+ state machine of values written to and read from typed columns (TLC, exhaustive over listed contents and list lengths), replayed through the pgsql converters against PostgreSQL in four time zones",
  "Every value TLC enumerates (all 74 column types, boundary and special contents, lists up to the listed length, NULLs at every position) is written with every converter of that type, compared with the text PostgreSQL holds, and read back. Contents per element family are a listed representative set.")
c("C19", "codec.py", "TLA+ state machine of scan histories over shared driver buffers and reused destinations (TLC, exhaustive), replayed into every scanner",
  "Every history of up to 3 (thorough: 4) steps over two destinations and two values is run for every scanner and several value triples; every destination is compared after every step. Malformed input: every truncation and single-character corruption of sampled valid text plus a list of broken shapes must not panic, and text with a spoiled element must be refused.")
c("C14", "tree.py", "TLA+ state machine of a source tree, its outputs and runs of the tool (TLC simulation, seeded), histories replayed with the real binary over real trees",
  "Each history edits targets (good, good in another way, bad column/tag/relation/field, withdrawn), places foreign files, directories and dangling links, and runs the tool with varying -r, -f, -o and database; every file of the tree is compared before and after every run. A seeded sample of histories; unwritability through permissions is not exercised (root).")
c("C15", "tree.py", "TLA+ specification of declarations and file selection (TLC, exhaustive over the listed forms), replayed with the real binary over real packages",
  "Every combination of name prefix, letter case, declaration form and ignore comment TLC enumerates, and every combination of working directory, recursion, -f and -rx options over a tree of three levels, is run through the real binary; the set of generated methods per file must be exactly the model's.")
c("C07", "rel.py", "TLA+ reference semantics of select descriptions over small databases (TLC simulation, seeded), behaviours replayed through freshly generated methods on PostgreSQL",
  "A seeded sample of select descriptions (outputs one/slice/iterator/count/exists, up to three joined tables, conditions of every predicate kind with nesting, order, limit, offset) is generated, compiled and executed over several database states each; rows, order up to ties, window and answers must equal the model's. PostgreSQL's evaluation of the issued text is part of the implementation side.")
c("C08 C09 C10", "rel.py", "TLA+ reference semantics of update/delete/insert descriptions and column options over small databases with keys (TLC, seeded sample of descriptions), behaviours replayed through freshly generated methods on PostgreSQL",
  "A seeded sample of descriptions over six tables (composite keys, partial and expression unique indexes, identity columns, json/xml, nested records with prefixes and options) is generated, compiled and executed over several database states and inputs; the whole database afterwards, the outcome, and everything handed back must equal the model's. Fixed probes cover the listed known findings, which random descriptions avoid.")
c("C11", "stmt.py", "TLA+ specification of decorated descriptions, package settings and the arguments each statement carries (TLC, seeded sample), every description generated, compiled and executed on PostgreSQL",
  "A seeded sample of descriptions of every kind, with error handlers, contexts and record types in packages of awkward names, is spread over packages generated under different settings (context, quoting, argument types, output names); every package must compile together, and every statement must be accepted with exactly the predicted number of arguments, each placeholder once. A second specification (spec/Operands.tla) says which comparisons of 39 columns of different types with fields, other columns and literals, under every predicate, quantifier and function, the database has, lacks or leaves open; a seeded sample is judged by the tool, and what it accepts is prepared by PostgreSQL. Fixed probes cover the listed known findings.")
c("C20", "filtgen.py", "TLA+ specification of filter types: keys, typed methods and what each selects or orders (TLC, seeded sample of record shapes and settings), every step replayed through freshly generated filters on PostgreSQL",
  "A seeded sample of record shapes (nesting, embedding, pointers, prefixes, options, key tags, overrides) and settings is generated and compiled; every expected key is looked up, ordered by and matched, keys other settings would give must be unknown, each typed method and text search must select its own row. Fixed probes cover the listed known findings.")
c("C16", "config.py", "TLA+ specification of how flags, configuration files and defaults resolve and take effect (TLC, seeded sample of situations), every situation run through the real command in a scratch project",
  "Sampled combinations; each setting over a handful of valid and invalid values.")
c("C17", "neighbours.py", "TLA+ state machine of a package tree whose targets come, go and move among files and packages, and of runs of the tool (TLC simulation, seeded), histories replayed with the real binary",
  "A seeded sample of targets (of every kind, sharing imported record types that differ in one respect) and of layouts; the code and verdict of each target alone, in each package, is the oracle for every run among neighbours, and repeated runs must give the same bytes.")
c("C12", "legal.py", "TLA+ specification of which target declarations are well formed (TLC, seeded sample of descriptions with one or two faults each), verdicts compared with the tool's, what is accepted compiled, run and parsed by PostgreSQL",
  "spec/Legal.tla gives a verdict (accept, refuse, open) with its reasons on numbered descriptions of targets of every kind; the steps of the tool judge each on its own (disagreements are judged again by the real command), diagnostics must point at the target, and everything accepted is generated by the command, compiled, executed against a recording connection and its statements prepared by a real PostgreSQL with the number of arguments compared")
c("C13", "pairs.py", "TLA+ specification of which Go types may stand for which columns and a state machine of a column as a program sees it (TLC, exhaustive over the listed types), every pair judged by the tool, histories replayed through freshly generated methods on PostgreSQL",
  "All pairs of 214 Go types and 103 columns are judged; a pair of a scalar and a column of another family must be refused, every accepted one must compile and runs histories of up to 3 (thorough: 4) inserts, updates and slice updates of two contents and NULL; after each put the stored text, the value read and the rows found by =, <>, [not] distinct, [not] in, any and all are compared with the specification. Contents are samples of Codec.tla; a pair whose Go type the harness cannot build contents for is compiled only; which of the pairs that are not ruled out are accepted is left open.")
