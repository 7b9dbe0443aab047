p('C01','Declared types are well formed and uniquely named',
 'A schema that is accepted (from RIDL or JSON) contains no type whose name is empty or does not start with an upper-case letter, no type whose kind is anything but struct, enum or alias, no alias without an underlying type, and no two types whose names are equal ignoring case.',
 ['inputs'],'every schema document, for every type and every pair of types in it, wherever they are declared or imported',
 'The tests load a few fixed documents; the rule must hold for every position and pair of declarations in any document.',
 ['schema/type.go','schema/schema.go'],[('per-type validation called for every type','schema/schema.go Validate; schema/type.go (*Type).Parse')],['error returned by ParseSchemaJSON, ParseSchemaFile, Validate'])
p('C02','Fields and enum members obey the naming and value rules',
 'In an accepted schema every struct field and enum member has a name matching [a-zA-Z]+[a-zA-Z0-9_]*, no two fields of one type have names (or effective JSON names) equal ignoring case, and a JSON-name override is a string that is a valid name or "-". Every enum has an integer or string base type, each enum member has a value and no type, and no struct field carries a value.',
 ['inputs'],'every type, field, metadata entry and pair of fields in any document',
 'Tests cover single hand-written duplicates and names, not every field position, metadata order or kind combination.',
 ['schema/type.go'],[('field loop of the type validator','schema/type.go (*Type).Parse')],['error returned by ParseSchemaJSON, ParseSchemaFile, Validate'])
p('C03','Services, methods and arguments obey the declaration rules',
 'In an accepted schema every service has a non-empty name and at least one method, no two services and no two methods of one service have names equal ignoring case, and every method and every argument has a non-empty name. A method in succinct form has at most one input and at most one output, and a RIDL method is succinct in both directions or in neither.',
 ['inputs'],'every service, method, argument and pair of them in any document',
 'Tests cover a few hand-written services; the rule quantifies over all positions and pairs.',
 ['schema/service.go','schema/schema.go','schema/ridl/ridl.go'],[('service and method validators','schema/service.go (*Service).Parse, (*Method).Parse'),('succinct agreement','schema/ridl/ridl.go (*Parser).parse')],['error returned by ParseSchemaJSON, ParseSchemaFile, Validate'])
p('C04','Declared errors are well formed and unambiguous',
 'In an accepted schema every declared error has a positive code, a non-empty message, an HTTP status between 400 and 599, and a name that is non-empty, starts with an upper-case letter and does not start with "webrpc" in any letter case. No two declared errors share a code or have names equal ignoring case.',
 ['inputs'],'every declared error and pair of errors in any document',
 'Tests sample single violations with particular codes; the rule quantifies over all integers, names and pairs.',
 ['schema/error.go','schema/schema.go'],[('error validator','schema/error.go (*Error).Parse')],['error returned by ParseSchemaJSON, ParseSchemaFile, Validate'])
p('C05','No dangling references in an accepted schema',
 'In an accepted schema every struct field, method input, method output, alias target, list element and map value, at any nesting depth, denotes a built-in type or a type declared in that schema, and the resolved reference points at the declaration of that name. Every map key is a string or integer built-in or a declared enum (directly or through an alias), and every error listed by a method is declared in the schema.',
 ['inputs'],'every reference at every nesting depth in any document',
 'Tests resolve a handful of expressions; nesting depth and reference position are unbounded.',
 ['schema/var_type.go','schema/type.go','schema/service.go'],[('type expression resolver','schema/var_type.go ParseVarTypeExpr'),('method error lookup','schema/service.go (*Method).Parse')],['error returned by ParseSchemaJSON, ParseSchemaFile, Validate'])
p('C06','Schema header rules: version markers and base path normal form',
 'An accepted schema declares webrpc format version v1, has a non-empty schema version whenever it has services, and has a base path that is empty or begins and ends with "/". A base path containing a blank, tab, carriage return or line feed, a query "?", a fragment "#" or a scheme "://" is rejected.',
 ['inputs'],'every header value combination',
 'Tests sample a table of base paths; strings are unbounded.',
 ['schema/schema.go'],[('header checks at the start of validation','schema/schema.go Validate')],['error returned by Validate','BasePath of the accepted schema'])
p('C07','A schema is returned without error only after full validation',
 'Loading a schema file, a JSON document or a RIDL file (including each imported file) reports success only if validation of the complete, merged schema ran after the last change to it and succeeded. Validation itself succeeds only if every type, every declared error and every service was checked.',
 ['inputs'],'every load path, file kind and import tree',
 'Tests observe outcomes of sample files; they cannot show that no path skips validation.',
 ['schema/parser.go','schema/ridl/ridl.go','webrpc.go','schema/schema.go'],[('loader entry points','schema/parser.go ParseSchemaJSON; schema/ridl/ridl.go (*Parser).Parse; webrpc.go ParseSchemaFile')],['error returned by the loaders'])
p('C08','No failure is swallowed while loading a schema',
 'When any step of loading a schema fails (reading a file, tokenizing, parsing, importing, converting a number, resolving a type, validating), the load as a whole returns a non-nil error. No failing step is ignored, replaced by a default value or reported as success.',
 ['inputs','fault_sequences'],'every failing call on every path of the loaders',
 'Tests provoke only some failures; unread error results are invisible to them.',
 ['schema','schema/ridl','webrpc.go'],[('error results of every call in the loading packages','schema/**, webrpc.go')],['error returned by the loaders'])
p('C09','Malformed documents are rejected, never crash the process',
 'Loading, validating, filtering or tree-shaking any document ends in a result or an error and never in a panic or process exit, even if parts of a JSON document are null or missing or a RIDL document is truncated or garbled at any point.',
 ['inputs'],'every document, every nil-able position, every index and assertion in the loading code',
 'Crash inputs are unbounded; tests contain none for null JSON members or truncated RIDL constructs.',
 ['schema','schema/ridl'],[('null checks before dereference, length checks before indexing','schema/schema.go, schema/var_type.go, schema/ridl/*')],['process survives'])
p('C10','RIDL parsing always terminates with exactly one outcome',
 'For every input text the RIDL parser stops after finitely many steps and delivers exactly one outcome: either a syntax error or end of document. It cannot loop without consuming input, block forever, or report an error after completion.',
 ['inputs','schedules'],'every token sequence; every interleaving of lexer, parser and collector',
 'Non-termination needs specific malformed inputs; tests only contain inputs that terminate.',
 ['schema/ridl'],[('parser state machine','schema/ridl/parser.go run, collect, emit and the parserState functions')],['Parse returns'])
p('C11','No RIDL source text is silently ignored',
 'Every character of a RIDL source belongs to exactly one token, and every word, string or value token outside comments either becomes part of the resulting document tree, is checked against the expected keyword, or causes a syntax error. Nothing but comments and separators is skipped, so a misspelt or misplaced word is never accepted as if it were absent.',
 ['inputs'],'every source text and every token position',
 'Tests check sample errors only; acceptance of garbage needs specific positions.',
 ['schema/ridl/lexer.go','schema/ridl/tokenizer.go','schema/ridl/parser.go','schema/ridl/*_parser.go'],[('lexer emit/start bookkeeping','schema/ridl/lexer.go'),('match/next/cursor primitives','schema/ridl/parser.go')],['Parse error or schema content'])
p('C12','Imports: cycles rejected, definitions merged exactly once, filters obeyed',
 'A circular import chain of any length is rejected with an error; a file imported along several paths contributes each of its definitions exactly once. An import with a member list contributes exactly the listed definitions of that file, an import without one contributes all of them, and import paths are resolved relative to the importing file.',
 ['inputs','configurations'],'every import graph and member list',
 'Tests contain a few small import trees.',
 ['schema/ridl/ridl.go','schema/ridl/internal/graph/graph.go'],[('import loop, cache, graph','schema/ridl/ridl.go parse, importParser; internal/graph')],['loaded schema'])
p('C13','Every RIDL declaration is represented faithfully in the schema',
 'Each type, enum, alias, error, service, method, argument, field and annotation declared in a RIDL file appears exactly once in the loaded schema, in declaration order within its kind, with its own name, type, optional/stream/succinct flag, value, metadata, errors and comments. No declaration inherits an attribute of another, and an undeclared attribute takes only its documented default.',
 ['inputs'],'every document; every declaration and attribute',
 'Golden files pin a few documents.',
 ['schema/ridl/ridl.go','schema/ridl/parser_node.go'],[('AST to schema conversion','schema/ridl/ridl.go (*Parser).parse, buildArgumentsList, buildAnnotations')],['loaded schema'])
p('C14','Built-in type tables are mutually consistent',
 'Every built-in type name maps to exactly one kind and back to the same name, and the printed form of a parsed type expression names the same type. Every kind is handled by the resolver and the printer.',
 ['inputs'],'every built-in type and every kind',
 'Tests use a subset of the built-in types.',
 ['schema/core_type.go','schema/var_type.go'],[('name/kind tables','schema/core_type.go')],['type expressions in JSON output'])
p('C15','Method tree-shaking keeps exactly what the selected services need',
 'After tree-shaking for a set of services, every type reachable from a method of a selected service through inputs, outputs, struct fields, list elements, map keys and values, enums and aliases is still in the schema, and types reachable from none of them are removed. Order is preserved, nothing else changes, and it terminates for recursive types.',
 ['inputs'],'every schema, service selection and reference chain',
 'Tests use one small schema.',
 ['schema/schema.go'],[('type walk','schema/schema.go MethodTreeShake')],['types of the returned schema'])
p('C16','Service and annotation filters select exactly the requested methods',
 'Filtering by service keeps exactly the services whose name is listed; matching by annotations keeps exactly the methods carrying one of the annotations (and its value, if one is given); ignoring by annotations removes exactly those methods and keeps all others. Kept services and methods are unmodified and keep their order, and the type and error lists do not change.',
 ['inputs'],'every schema and every selection',
 'Tests use one schema and few selections.',
 ['schema/schema.go'],[('filters','schema/schema.go MatchServices, MatchMethodsWithAnnotations, IgnoreMethodsWithAnnotations')],['returned schema'])
p('C17','BigInt use is detected wherever it occurs',
 'The schema-level bigint test is true exactly when some struct field or method argument mentions bigint directly or behind lists, maps, structs or aliases of any depth. The per-type table lists every field, and no other, that is a bigint, a list of bigint, or a struct (or list of a struct) that transitively contains such a field, for every struct and every non-succinct method request and response, in any declaration order and for recursive types.',
 ['inputs'],'every schema, reference chain and declaration order',
 'Tests use fixed small schemas.',
 ['schema/helpers.go'],[('bigint walks','schema/helpers.go')],['helper results'])
p('C18','Queries never modify the schema',
 'Looking up types or services, computing the schema hash, rendering JSON, printing types and the bigint helpers leave the schema and everything reachable from it unchanged.',
 ['inputs','histories'],'every schema and call sequence',
 'Tests do not compare the schema before and after queries.',
 ['schema'],[('query functions','schema/schema.go, schema/helpers.go, schema/var_type.go')],['schema before and after'])
p('C19','Loading, hashing and printing a schema is deterministic',
 'The same files always produce the same schema, JSON text, schema hash, error and generated helper tables, in every run and process: no result depends on map iteration order, time, randomness, environment or goroutine scheduling.',
 ['inputs','schedules'],'every input and run',
 'A test run sees one iteration order and schedule.',
 ['schema','schema/ridl','gen'],[('loops over maps, goroutines, clock','schema/**, gen/funcmap*.go')],['schema JSON and hash'])
p('C20','Schema loads are isolated from each other',
 'Loading or processing one schema never affects another, whether done later or concurrently in the same process: no package-level state, nor memory reachable from it, nor any state of the process is modified after initialisation, and no data is used by two goroutines without synchronisation.',
 ['schedules','histories'],'every sequence and interleaving of loads',
 'Tests load schemas in one goroutine each and do not look for shared state.',
 ['schema','schema/ridl'],[('package-level variables, goroutines','schema/**')],['results of concurrent loads'])
p('C21','Schema JSON and hash cover the whole contract',
 'The JSON form of a schema carries every contract-relevant attribute of types, fields, errors, services, methods, arguments and annotations under distinct keys that reading it back assigns to the same attribute. The schema hash is a function of the complete JSON form, so it changes whenever the contract does.',
 ['inputs'],'every schema attribute',
 'Golden files only exercise attributes present in the samples.',
 ['schema'],[('json tags, ToJSON, SchemaHash','schema/*.go')],['ToJSON output, SchemaHash'])
p('C22','Template version gate and type helpers agree with the schema model',
 'The minimum-version test available to templates (minVersion) orders versions by major then minor number, ignoring a leading v and further numbers and taking a missing minor number for zero. Of the type predicates (isCoreType, isStructType, isEnumType, isAliasType, isListType, isMapType) exactly the one of its kind holds for every type of a validated schema, passed by value or by pointer. The functions that take a list or map type apart return its element, key and value type.',
 ['inputs'],'every version pair and every type',
 'Tests sample few versions and types; the package is not even built by the baseline tests.',
 ['gen/funcmap_flow.go','gen/funcmap_types.go'],[('template functions','gen/funcmap*.go')],['template function results'])
p('C23','An interrupted or failed template cache refresh never yields a stale or partial cache',
 'Templates of a remote target are served from the local cache only if a complete earlier refresh finished, wherever that refresh may be interrupted or fail: the marker that makes a cache usable is written last, after every template file was written without error; old content is removed before that, and its marker before the rest. If fetching fails and a usable cache exists (of any age) it is used, otherwise the failure is reported.',
 ['crash_points','fault_sequences'],'every crash point and failing file operation of a refresh',
 'No test exercises the cache.',
 ['gen/template_source.go'],[('cache refresh order','gen/template_source.go cacheTemplates, loadRemote')],['files in the cache directory'])
p('C24','webrpc-gen never reports success after a failure',
 'The command webrpc-gen exits with a non-zero status whenever its flags, loading the schema, the filtering options, generation (including loading and executing the templates), formatting the generated Go code or writing the output fails. It writes an output file only after the schema was loaded and code was generated from it without error.',
 ['inputs','fault_sequences'],'every failing step of the command',
 'The command is not built or run by the baseline tests.',
 ['cmd/webrpc-gen/main.go','gen/gen.go'],[('main','cmd/webrpc-gen/main.go')],['exit status and output file'])
p('C25','Built-in webrpc errors are unique and disjoint from user errors',
 'The built-in errors handed to templates have pairwise distinct codes and names, codes that are zero or negative and names starting with Webrpc, so they can never collide with an error declared in an accepted schema. Each published code keeps its name and HTTP status, whatever the schema.',
 ['configurations'],'every entry of the table and every accepted schema error',
 'No test reads the table.',
 ['gen/errors.go','gen/gen.go','schema/error.go'],[('table','gen/errors.go WebrpcErrors'),('hand-over to the templates','gen/gen.go Generate'),('validator of declared errors','schema/error.go (*Error).Parse')],['generated error codes'])
