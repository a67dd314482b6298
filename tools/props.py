"""The single table of properties: writes properties.jsonl and MANIFEST.json.
A property is claimed when harness/<id>_*.py exists."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe or [], na=na))


prop('C01', 'Engine result equals the naive meaning of the query',
     'For every query over a graph, the executed result holds, for every requested field, record and link under its result key, exactly the values the resolver functions define for that object; links produce one object, an absent object or a list in the order the link function returned. Batching, shared nodes, repeated identifiers, aliases and several links to the same node never change a value or attach it to another object.',
     ['inputs', 'programs'],
     'over queries (symbolic field and link names, options, aliases, shape bounds) and over all functions a loader may compute (uninterpreted functions of node, field, options and identifier), including coinciding identifiers',
     'Tests run a few hand written queries against constant loaders; coincidences of identifiers, options and names between sibling requests are not sampled.',
     ['hiku/engine.py', 'hiku/result.py', 'hiku/query.py'],
     [('split query into field groups and links', 'hiku/engine.py SplitQuery, Query.process_node'),
      ('store and link the results', 'hiku/engine.py store_fields, store_links, link_reqs'),
      ('index of fetched values', 'hiku/result.py Index, Proxy')],
     ['Engine.execute(...) result read by item access', 'hiku.result.denormalize'])

prop('C02', 'Loaders are called in batches with what was requested, no more',
     'For the root, and for each list of objects a link leads to, every resolver function which provides something needed there is called exactly once, with all of the requested fields it provides (and fields which the requested links require) and with exactly the identifiers the link led to; functions which provide nothing needed are not called, and nothing is called for an empty list. Each requested link is resolved by exactly one call, which carries the required values of all of the objects, in their order. In an ordered query (a mutation) each run of consecutive top-level fields of one function is one call.',
     ['inputs', 'programs'],
     'over queries with symbolic names, options and list links with arbitrary targets (including repeated and empty ones)',
     'Tests assert call arguments for single literal queries; duplicates in identifiers produced by loaders and their combinations with field groups are not covered.',
     ['hiku/engine.py'],
     [('grouping of fields by function', 'hiku/engine.py SplitQuery.process, _yield_options'),
      ('identifier de-duplication', 'hiku/engine.py link_result_to_ids, Query._process_node_links'),
      ('empty calls', 'hiku/engine.py Query.process_link')],
     ['arguments received by loaders'])

prop('C03', 'The result does not depend on how resolver calls are scheduled',
     'With any executor (synchronous, thread pool, event loop) and any order in which resolver calls complete, executing a query terminates and yields the same result and the same set of resolver calls. A resolver call is started only after everything it depends on has been stored.',
     ['schedules', 'inputs'],
     'over completion orders and completion batches of the pending calls (symbolic choices) for queries with several field groups and links',
     'Tests let the operating system pick one completion order; they never force late or simultaneous completion of chosen calls.',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py', 'hiku/executors/sync.py'],
     [('task sets and callbacks', 'hiku/executors/queue.py Queue.progress'),
      ('waiting for the first completed', 'hiku/executors/threads.py process, hiku/executors/asyncio.py process')],
     ['Engine.execute'])

prop('C04', 'Mutations run one after another in document order',
     'Top-level fields and links of an ordered query (a mutation) are executed strictly serially in the order of the document: the resolver call of the next item starts only when the call of the previous one has completed and its result was stored. This holds for any mixture of fields, complex fields and links, including repeated functions, fragments and merged selections, and with any executor. What a later item shows of an object is what the object is after the items before it.',
     ['inputs', 'programs', 'schedules'],
     'over mixtures and orders of up to four top-level items with symbolic names and options, with and without sub-selections, and over completion orders of the calls inside each step',
     'Tests check two or three literal sequences with one executor.',
     ['hiku/engine.py', 'hiku/query.py', 'hiku/executors/queue.py', 'hiku/readers/graphql.py'],
     [('serial execution of groups', 'hiku/engine.py Query.process_node, _process_node_ordered'),
      ('grouping consecutive fields', 'hiku/engine.py GroupQuery'),
      ('callbacks once a task set is exhausted', 'hiku/executors/queue.py')],
     ['order of loader calls'])

prop('C05', 'Malformed resolver answers are rejected, valid ones are accepted',
     'A resolver function answering with a number of values or rows which differs from what was requested, or with something that is not a list where a list is required, makes the execution fail with an error naming the node and what could not be stored. An answer of the right shape is always accepted; values are never silently shifted, truncated or padded.',
     ['inputs', 'fault_sequences'],
     'over answer lengths at both levels and kinds of answers, for root fields, node fields and every kind of link',
     'Tests parametrise a handful of wrong answers, one at a time.',
     ['hiku/engine.py'],
     [('answer checks', 'hiku/engine.py _check_store_fields, _check_store_links, store_fields, store_links')],
     ['Engine.execute'])

prop('C06', 'Option defaults are applied and unknown options never reach loaders',
     'The options a resolver receives hold exactly the declared options: what the query says where it says something, the declared default otherwise. A query which omits an option without default is refused with an error; fields without declared options receive none. The same holds for options of links and options nested under any link.',
     ['inputs', 'programs'],
     'over subsets of supplied options, symbolic option names and values (including null), defaults and required options, for fields and links at the root and in nodes',
     'Tests cover one default and one missing option.',
     ['hiku/engine.py', 'hiku/graph.py'],
     [('initialisation of options before execution', 'hiku/engine.py InitOptions, _yield_options')],
     ['Field.options seen by loaders', 'options argument of link functions'])

prop('C07', 'Requests with different options never share results',
     'Two requests of the same field or link with different option values (of any kind: numbers, strings, booleans, null, lists, dictionaries) are loaded separately and each gets its own value under its own result key; two requests with equal options give the same value. Option values which merely look alike or hash alike are still different.',
     ['inputs'],
     'over pairs of option dictionaries with symbolic keys and values of mixed kinds (depth two)',
     'Tests use one pair of small integers; collisions (-1 and -2, 1 and true, nested reorderings) need a search.',
     ['hiku/query.py', 'hiku/result.py', 'hiku/engine.py'],
     [('identity of a request', 'hiku/query.py FieldOrLink.index_key, options_hash'),
      ('index keys', 'hiku/result.py Proxy, hiku/engine.py store_fields')],
     ['result values per alias'])

prop('C08', 'Merging selections preserves the meaning of the query',
     'Merging any number of selections gives a query which requests exactly the union of what they request, with one entry for each distinct request under a result key at each level and the sub-selections of equal links united; different requests under one result key are all kept, so that validation can report them. Merging is idempotent, does not depend on how the selections were divided, and keeps the first occurrence of everything in its place (document order of fields and of links; full document order for mutations).',
     ['inputs', 'programs'],
     'over lists of up to two selections with symbolic names, aliases, options and nested links',
     'Tests merge two literal nodes.',
     ['hiku/query.py'],
     [('merge of nodes', 'hiku/query.py _merge, merge, collect_fields')],
     ['hiku.query.merge, Node'])

prop('C09', 'Valid queries execute and return exactly the requested keys',
     'A query for which validation reports no errors executes without an error (given well-behaved resolvers) and its denormalized result has, at every level, exactly the requested result keys and nothing else. Null and empty links give null and empty lists.',
     ['inputs', 'programs'],
     'over queries with symbolic names and options which include invalid ones; validity is decided by the validator itself on each path',
     'Tests validate and execute different literal queries; the implication between the two is never checked.',
     ['hiku/validate/query.py', 'hiku/engine.py', 'hiku/result.py', 'hiku/denormalize/graphql.py'],
     [('query validation', 'hiku/validate/query.py QueryValidator'), ('engine', 'hiku/engine.py'), ('denormalization', 'hiku/result.py, hiku/denormalize')],
     ['validate, Engine.execute, denormalize'])

prop('C10', 'The query validator reports exactly the invalid parts and never fails',
     'For every query whose selections are merged, validation terminates without raising; it reports an error for each unknown field, plain field which is queried with a selection, link or record which is queried as a plain field where that is forbidden, undeclared option, missing required option, and for different requests under one result key. Queries without such defects are accepted without errors.',
     ['inputs', 'programs'],
     'over queries with symbolic names, options, nesting (including complex records and nested records) and aliases',
     'Tests list literal invalid queries with expected messages.',
     ['hiku/validate/query.py'],
     [('query validation visitors', 'hiku/validate/query.py QueryValidator, _ValidateOptions, _RecordFieldsValidator, _AssumeRecord')],
     ['hiku.validate.query.validate'])

prop('C11', 'Option values are accepted exactly when they conform to their type',
     'The validator accepts an option value if and only if the value belongs to the declared type: integers, floats, strings, booleans, optionals, sequences, mappings, records, and references to named types, nested in any way. Null is accepted only for optionals, a string is not a sequence, and a record value has all and only the declared keys. Validation terminates with a verdict for every value.',
     ['inputs'],
     'over types and values nested two levels with symbolic leaves, kinds and keys',
     'Tests parametrise some literal (type, value) pairs.',
     ['hiku/validate/query.py', 'hiku/types.py'],
     [('type directed check of option values', 'hiku/validate/query.py _OptionTypeValidator')],
     ['validate'])

prop('C12', 'EDN printing and reading are inverse',
     'Reading the printed form of any EDN value (null, booleans, integers, finite floats and decimals, instants, UUIDs, strings, keywords, symbols, tuples and lists, dictionaries, sets, tagged elements, nested in any way) gives the value back, with strings preserved character by character whatever they contain and whether or not non-ASCII is escaped.',
     ['inputs'],
     'over strings of arbitrary code points up to a length, symbolic integers, keywords and symbols, and nestings',
     'Tests compare a few literal documents.',
     ['hiku/edn.py'],
     [('printer', 'hiku/edn.py dumps, _iterencode'), ('reader', 'hiku/edn.py Loader/edn parser states')],
     ['hiku.edn.dumps, loads'])

prop('C13', 'The EDN reader is insensitive to layout and total on valid text',
     'Any text formed by the EDN grammar (as far as the reader supports it) is read into the value it denotes regardless of whitespace, commas, comments and separators between its elements, and closing brackets directly after an element end that element. A tagged element whose tag has a handler is read as what the handler makes of its value, whatever the value is. A value which is read and printed reads back to the same value; unbalanced brackets are never read as a complete value with a different nesting.',
     ['inputs'],
     'over texts of bounded length over an alphabet with all syntactic characters, differentially against an independent reference reader',
     'Tests read a few literal documents with conventional layout.',
     ['hiku/edn.py'],
     [('reader states', 'hiku/edn.py')],
     ['hiku.edn.loads'])

prop('C14', 'Queries survive the textual (EDN) transport',
     'Exporting a query to the textual format and reading it back gives the same query: same fields, links, options with equal values of the same types, nesting and order. Malformed documents are refused with an error.',
     ['inputs', 'programs'],
     'over queries with symbolic names and option values (all kinds, nested)',
     'Tests convert a single literal query.',
     ['hiku/export/simple.py', 'hiku/readers/simple.py', 'hiku/edn.py'],
     [('export', 'hiku/export/simple.py'), ('reader', 'hiku/readers/simple.py')],
     ['export, read'])

prop('C15', 'Queries survive the binary (protobuf) transport',
     'Exporting a query to the binary format and reading it back gives the same query: same fields, links, options with equal values (as far as the format represents them: numbers within the exact range of doubles), nesting and order.',
     ['inputs', 'programs'],
     'over queries with symbolic names and option values (all kinds, nested)',
     'Tests convert a single literal query.',
     ['hiku/export/protobuf.py', 'hiku/readers/protobuf.py'],
     [('export', 'hiku/export/protobuf.py'), ('reader', 'hiku/readers/protobuf.py')],
     ['export, read'])

prop('C16', 'Queries survive the GraphQL transport',
     'Exporting a query to a GraphQL document and reading it back gives the same query: same fields, links, aliases, arguments with equal values of the same types, nesting and order (no arguments and empty arguments are the same).',
     ['inputs', 'programs'],
     'over queries with symbolic names, aliases and option values (all kinds, nested)',
     'Tests convert single literal queries in one direction.',
     ['hiku/export/graphql.py', 'hiku/readers/graphql.py'],
     [('export', 'hiku/export/graphql.py Exporter, dump_value'), ('reader', 'hiku/readers/graphql.py GraphQLTransformer')],
     ['export, read'])

prop('C17', 'Skip and include directives select exactly what GraphQL specifies',
     'A field, inline fragment or fragment spread is part of the query if and only if none of its skip conditions is true and none of its include conditions is false, whether the condition is a literal or a variable, and this composes over enclosing fragments. Anything excluded leaves no trace in the query.',
     ['inputs', 'programs'],
     'over presence, order and symbolic conditions of directives at every kind of selection, literal or variable with or without default',
     'Tests use each directive alone.',
     ['hiku/readers/graphql.py'],
     [('directives', 'hiku/readers/graphql.py SelectionSetVisitMixin._should_skip, visit_*')],
     ['hiku.readers.graphql.read'])

prop('C18', 'Fragments mean the same as writing their fields in place',
     'A document with named fragments (used anywhere, several times, nested in each other) and inline fragments reads as the query obtained by writing their selections in place of the spreads. Fragments which form a cycle, and undefined fragments, are reported as errors instead of looping.',
     ['inputs', 'programs'],
     'over documents with up to three fragments whose spreads have symbolic targets, at the top level and under fields',
     'Tests use one document with fragments and one cycle.',
     ['hiku/readers/graphql.py'],
     [('fragment expansion', 'hiku/readers/graphql.py FragmentsCollector, SelectionSetVisitMixin.visit_fragment_spread')],
     ['hiku.readers.graphql.read'])

prop('C19', 'Variables and operation selection follow the request',
     'A variable in a document stands for the supplied value, else for its declared default, else for null when it is nullable; a missing value for a required variable, an undefined variable, a missing or unknown operation name and an ambiguous one are refused with an error. The selected operation is the named one, and mutations (only) are read as ordered queries.',
     ['inputs', 'programs'],
     'over presence and values of variables, defaults, nullability, use inside nested values, and over the operations in the document and the requested name',
     'Tests use literal documents for each of the cases separately.',
     ['hiku/readers/graphql.py'],
     [('variable values', 'hiku/readers/graphql.py ValuesVisitor, GraphQLTransformer.visit_operation_definition'), ('operation choice', 'hiku/readers/graphql.py OperationGetter')],
     ['read, read_operation'])

prop('C20', 'The GraphQL endpoint answers every request with data or errors',
     'For every request which contains a document the endpoint returns either the denormalized data of the chosen operation (query operations run against the query graph, mutations against the mutation graph) or a list of error messages, never both and never an unhandled error for an invalid document, unknown operation or invalid query. Batched requests get one answer each in order, as if they had been sent alone.',
     ['inputs', 'programs', 'configurations'],
     'over documents with symbolic names, operation types and names, batches of up to three requests, with and without a mutation graph (the endpoint always adds introspection)',
     'Tests send a few literal valid requests.',
     ['hiku/endpoint/graphql.py', 'hiku/denormalize/graphql.py', 'hiku/readers/graphql.py'],
     [('dispatch', 'hiku/endpoint/graphql.py process_query, dispatch, _switch_graph'), ('denormalization with __typename', 'hiku/denormalize/graphql.py')],
     ['GraphQLEndpoint.dispatch'])

prop('C21', 'Introspection describes the graph faithfully and completely',
     'The introspection schema lists, for every node, data type and the root, exactly their fields with types, nullability, list wrapping and arguments that correspond to the graph, and hides nothing else. Every type name it mentions is defined in it, and looking a type up by name agrees with the list of all types.',
     ['programs', 'configurations'],
     'over graphs whose field types, link kinds, options and names are symbolic',
     'Tests compare the schema of one literal graph.',
     ['hiku/introspection/graphql.py', 'hiku/graph.py'],
     [('schema construction', 'hiku/introspection/graphql.py SchemaInfo, type_link, field_info, TypeIdent')],
     ['introspection query through the engine'])

prop('C22', 'Denormalization of complex fields keeps exactly what was requested',
     'For a field of record type (alone, optional, or in a sequence, and nested records) which is queried with a selection, the denormalized value has exactly the requested keys (under their aliases) with the values the resolver returned; null stays null and sequences keep length and order. This holds for plain denormalization and for the GraphQL one.',
     ['inputs', 'programs'],
     'over record types nested two levels, selections with symbolic names and aliases, and record values with symbolic leaves',
     'Tests have one literal example of each wrapper.',
     ['hiku/result.py', 'hiku/denormalize/base.py', 'hiku/denormalize/graphql.py'],
     [('type directed denormalization', 'hiku/result.py _denormalize_type, Denormalize; hiku/denormalize/base.py')],
     ['denormalize, DenormalizeGraphQL'])

prop('C23', 'A result exposes only what was requested',
     'Through the result object of a query every requested field and link can be read under its result key and gives what its resolver returned, and reading anything that was not requested, or reading through a link without selection, is refused with an error, even when the value was loaded for internal reasons (required by a link, or requested elsewhere in the query).',
     ['inputs', 'programs'],
     'over queries with symbolic names and over the symbolic name that is read',
     'Tests try one unknown name.',
     ['hiku/result.py'],
     [('checked access', 'hiku/result.py Proxy')],
     ['result[name], result.name'])

prop('C24', 'Expressions compute what they say',
     'A compiled expression gives the value of the expression as written: field access, calls of defined functions, conditionals, let bindings with shadowing, mapping over sequences and optional bindings, nested in any way and with any names of variables and functions. Only the selected branch of a conditional is evaluated.',
     ['inputs', 'programs'],
     'over expressions of bounded depth with symbolic constants and environment values, with symbolic and clashing variable names',
     'Tests compile single literal expressions and compare source text.',
     ['hiku/expr/compiler.py', 'hiku/expr/core.py', 'hiku/sources/graph.py'],
     [('compilation to Python', 'hiku/expr/compiler.py ExpressionCompiler')],
     ['SubGraph computed fields, compile'])

prop('C25', 'Expressions request exactly the data they read',
     'The data requirements derived from an expression contain every field the evaluation of the expression can read on any data, under the right node, and nothing that no evaluation can read (arguments of functions are declared by records and sequences of records). Evaluation against data restricted to the requirements gives the same value.',
     ['inputs', 'programs'],
     'over expressions of bounded depth with symbolic choices of constructs and fields',
     'Tests list literal expressions with expected requirements.',
     ['hiku/expr/refs.py', 'hiku/expr/checker.py', 'hiku/query.py'],
     [('requirements extraction', 'hiku/expr/refs.py RequirementsExtractor, ref_to_req, type_to_query')],
     ['check, RequirementsExtractor, SubGraph'])

prop('C26', 'Two-level graphs compute fields from the data of the lower graph',
     'A field computed by an expression over a lower-level graph has, for each requested object, the value of the expression on the data of that very object, whatever other objects and fields are requested together, in any order and with repetitions. The lower-level graph is asked once for all of them.',
     ['inputs', 'programs'],
     'over sets of computed fields, options and identifiers with arbitrary lower-level data',
     'Tests run a few literal queries.',
     ['hiku/sources/graph.py', 'hiku/engine.py'],
     [('computed fields', 'hiku/sources/graph.py SubGraph')],
     ['Engine.execute over a graph with SubGraph'])

prop('C27', 'Expressions accepted by the checker do not fail on conforming data',
     'An expression accepted by the checker evaluates without name, key or type errors on all data which conforms to the declared types; expressions which read unknown fields, undefined variables or non-record values, or which call functions with unknown or missing arguments, are refused with an error.',
     ['inputs', 'programs'],
     'over well and ill formed expressions of bounded depth with symbolic names',
     'Tests list literal failures.',
     ['hiku/expr/checker.py', 'hiku/types.py'],
     [('type checking', 'hiku/expr/checker.py check, fn_types'), ('subtyping of types', 'hiku/types.py')],
     ['check, compile'])

prop('C28', 'Graph construction rejects exactly the inconsistent graphs',
     'A graph with links to missing nodes, requirements which are missing or are not fields, duplicated names of nodes or of fields and links within one node (also across several roots), or items of a wrong kind is refused with an error that names the problem, and every consistent graph is accepted. An accepted graph can be traversed by any valid query without an internal lookup error.',
     ['programs', 'configurations'],
     'over small graphs with symbolic names of nodes, fields, requirements and link targets',
     'Tests list literal invalid graphs.',
     ['hiku/validate/graph.py', 'hiku/graph.py'],
     [('graph validation', 'hiku/validate/graph.py GraphValidator')],
     ['Graph, apply, GraphValidator.validate'])

prop('C29', 'Graph transformations preserve everything they do not change',
     'Applying a transformation to a graph (identity, introspection, making async, function wrapping) keeps every node, field, link, option, type and description; lookups by name and visitors agree with iteration over nodes and graphs. Queries give the same result on the transformed graph, and the original graph is unchanged.',
     ['programs', 'configurations'],
     'over small graphs with symbolic names and wrappers, and queries on them',
     'Tests check single literal graphs.',
     ['hiku/graph.py', 'hiku/introspection/graphql.py'],
     [('transformer', 'hiku/graph.py GraphTransformer, apply'), ('lookups', 'hiku/graph.py Graph, Node fields_map')],
     ['apply(graph, ...)'])

prop('C30', 'SQL sources give every object its own row',
     'For any set of identifiers and any order, subset or chunking in which a database returns rows, SQL-backed fields give each object the values of its own row and null where it has none, in the requested column order; SQL-backed links give each object all of its own targets, in the order of the rows. An empty set of identifiers gives an empty answer.',
     ['inputs', 'histories'],
     'over identifiers, rows returned, their order and chunk sizes, for the blocking and the asynchronous variants',
     'Tests use an in-memory database whose order and chunking never vary.',
     ['hiku/sources/sqlalchemy.py', 'hiku/sources/sqlalchemy_async.py', 'hiku/sources/aiopg.py'],
     [('row alignment', 'hiku/sources/sqlalchemy.py FieldsQuery, LinkQuery, to_*_mapper')],
     ['FieldsQuery, LinkQuery called with ids over a stub connection'])

prop('C31', 'Metrics observe without interfering',
     'Wrapping a graph with metrics collection changes no result, no call argument and no error of the graph. Each resolver call which completes is observed exactly once for every field it served, labelled with the graph, node and field it served, also when functions are shared between fields or nodes and when calls run asynchronously.',
     ['inputs', 'programs', 'fault_sequences'],
     'over queries, functions shared between nodes, failing calls, and synchronous and asynchronous variants',
     'Tests check one field and one link.',
     ['hiku/telemetry/prometheus.py'],
     [('function wrapping', 'hiku/telemetry/prometheus.py GraphMetrics, AsyncGraphMetrics')],
     ['result and observations with a recording metric'])

prop('C32', 'The context reaches exactly the functions which ask for it',
     'Every resolver function marked to receive the context gets the context given to this execution as its first argument, and functions which are not marked never get it, for root fields, node fields, all kinds of links and computed fields, also through wrappers. Reading an unknown context value is an error naming it, and executions with different contexts never mix.',
     ['inputs', 'programs'],
     'over which functions are marked, where they are used and symbolic context values, for two interleaved executions',
     'Tests mark one function of each kind.',
     ['hiku/engine.py', 'hiku/sources/graph.py', 'hiku/expr/compiler.py'],
     [('context passing', 'hiku/engine.py pass_context, _do_pass_context, Context, SubmitRestrictionsError')],
     ['arguments received by functions'])

prop('C33', 'Failure and cancellation of asynchronous execution leave nothing running',
     'When an execution on the event loop which has been started is cancelled, every pending resolver call of that execution is cancelled and has finished by the time the cancellation reaches the caller, and no new resolver calls are started; when a resolver call fails, its error reaches the caller, no result is produced, and no resolver calls are started afterwards.',
     ['schedules', 'fault_sequences'],
     'over the step at which cancellation or failure happens, which call fails and which calls have completed by then',
     'Tests cancel at one fixed moment.',
     ['hiku/executors/asyncio.py', 'hiku/engine.py'],
     [('cancellation of the pending futures', 'hiku/executors/asyncio.py AsyncIOExecutor.process')],
     ['asyncio tasks left after execute'])

prop('C34', 'The task queue runs every callback exactly once at the right time',
     'A callback attached to a task runs exactly once after that task completes; a callback attached to a group of tasks runs exactly once after every task and every sub-group (including those added meanwhile) has completed, and not before. Nothing is lost or duplicated whatever the completion order.',
     ['schedules', 'histories'],
     'over trees of tasks and groups built by symbolic operations and over completion orders',
     'Tests have no direct test of the queue.',
     ['hiku/executors/queue.py'],
     [('bookkeeping of tasks and groups', 'hiku/executors/queue.py Queue, TaskSet, Workflow')],
     ['callbacks'])

prop('C35', 'Executing and transforming never modify queries and graphs',
     'Executing, validating, merging, exporting and denormalizing leave the query, its options, the graph and the option values passed by the caller as they were. Executing the same query again, or another query in between, gives the same result as on a fresh engine.',
     ['inputs', 'histories'],
     'over queries with symbolic names and options and histories of up to three operations',
     'Tests use each query once.',
     ['hiku/engine.py', 'hiku/query.py', 'hiku/graph.py'],
     [('copying of queries', 'hiku/query.py Node, Field, Link; hiku/engine.py InitOptions')],
     ['query and graph before and after'])

prop('C36', 'The web console passes queries and answers through faithfully',
     'A query posted to the console is executed and its result is returned as data equal to the direct execution; a failing query is answered with a server error carrying the traceback only in debug mode. Other methods and paths get the documented statuses, and only the packaged assets can be read.',
     ['inputs', 'configurations'],
     'over methods, symbolic paths, modes and failing or succeeding queries',
     'Tests make three requests, all of which succeed.',
     ['hiku/console/ui.py'],
     [('WSGI application', 'hiku/console/ui.py ConsoleApplication')],
     ['WSGI responses'])

prop('C37', 'The type listing for templates describes exactly the graph',
     'The textual listing of the types of a graph defines every node and data type, and every typed field and link of the root, exactly once, records with exactly their typed fields and links, and the type of each (record, optional, sequence, mapping, reference, plain) as declared, nested in any way; it refers only to types it defines and never fails.',
     ['programs', 'configurations'],
     'over graphs with symbolic names and nested types',
     'Tests dump one literal graph.',
     ['hiku/typedef/kinko.py', 'hiku/typedef/types.py', 'hiku/types.py'],
     [('dump and load', 'hiku/typedef/kinko.py dumps, _LineWriter, TypeDoc')],
     ['hiku.typedef.kinko.dumps'])

prop('C38', 'The query builder builds the query it spells',
     'A query written with the builder is equal to the query written out: names, options, aliases and nesting as spelled, also when finished parts are reused in several queries; building a query changes none of its parts, and invalid spellings are refused.',
     ['inputs', 'programs', 'histories'],
     'over builder programs of bounded size with symbolic names and options and reuse of parts',
     'Tests build two literal queries.',
     ['hiku/builder.py'],
     [('builder', 'hiku/builder.py Handle, Q, build')],
     ['build'])

prop('C41', 'Requests are independent of each other',
     'The answer to a request depends only on the request, the graph and the data at that moment: not on what the same engine, graph, endpoint, validator or reader has handled before (valid or wrong requests, the same text with other variables, other fragments or operations of the same name) nor on what it handles at the same time, in any order in which resolver calls complete. Data are read anew for every request, and results which have been made stay as they are.',
     ['inputs', 'histories', 'schedules'],
     'over histories of up to three requests with symbolic parts and data which change in between, and over completion orders of simultaneous requests',
     'Tests make one request on each engine or endpoint.',
     ['hiku/engine.py', 'hiku/endpoint/graphql.py', 'hiku/readers/graphql.py', 'hiku/sources/graph.py', 'hiku/validate/query.py'],
     [('state of an execution', 'hiku/engine.py Query, Engine.execute, InitOptions; hiku/result.py Index'), ('state of an endpoint', 'hiku/endpoint/graphql.py'), ('computed fields', 'hiku/sources/graph.py')],
     ['answers to sequences of requests'])

prop('C42', 'Constants in GraphQL documents stand for their values',
     'An argument, option or default value written as a constant in a GraphQL document is read as the value it denotes and of its type: null, booleans, integers of any size, floats in any spelling, strings character by character, enumeration values as their names, lists and objects nested in any way and mixed with variables, wherever in the document it is written.',
     ['inputs', 'programs'],
     'over constants with symbolic contents nested up to a bound, at every place of a document where a value may be written',
     'Tests read a handful of literal constants.',
     ['hiku/readers/graphql.py'],
     [('values', 'hiku/readers/graphql.py SelectionSetVisitMixin.visit_*_value'), ('defaults of variables', 'hiku/readers/graphql.py visit_operation_definition, variable values')],
     ['read, read_operation'])

prop('C43', 'Errors of resolver functions reach the caller as they are',
     'When a resolver function (of a field, link, computed field, lower-level graph, or a function used in an expression) raises an error, of whatever type, executing the request raises that very error with every executor and through wrappers such as metrics and the endpoint: it is never swallowed, replaced, or taken for an error of the request. Nothing further is started for that execution, and the engine, graph and executor handle the next request as if nothing had happened.',
     ['inputs', 'schedules', 'fault_sequences'],
     'over which call of a query raises which type of error, over queries with symbolic parts, completion orders and executors',
     'Tests never let a resolver fail except in one call of one query.',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/sync.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py', 'hiku/sources/graph.py', 'hiku/telemetry/prometheus.py'],
     [('results of tasks', 'hiku/executors/queue.py Queue, Workflow; hiku/executors/sync.py SyncTask'), ('wrappers', 'hiku/telemetry/prometheus.py'), ('computed fields', 'hiku/sources/graph.py')],
     ['Engine.execute, endpoint dispatch'])

prop('C44', 'Types and queries are values',
     'Two types are equal exactly when they are made of the same parts (a name given instead of a reference is the reference), they can be compared with anything, a type which has been made cannot be given parameters again and making types changes no others. Two queries are equal exactly when they are made of the same parts; a copy differs only in what has been replaced and leaves the original as it was, also when names and keys have been looked up before; transforming without changes gives an equal query which shares no parts, and visitors visit every part once, in order.',
     ['inputs', 'programs'],
     'over pairs of types and queries with symbolic names, aliases and options nested up to a bound',
     'Tests compare single pairs of literals.',
     ['hiku/types.py', 'hiku/query.py'],
     [('types', 'hiku/types.py GenericMeta.__eq__, TypingMeta.__getitem__, TypeVisitor, get_type'), ('queries', 'hiku/query.py Base.__eq__, Base.copy, QueryTransformer, QueryVisitor')],
     ['==, !=, copy, visit'])

prop('C45', 'EDN values are values',
     'Keywords, symbols and strings of the same letters are different from each other; tagged elements, lists, tuples, dictionaries and sets are equal exactly when they are of the same kind and made of equal parts (dictionaries and sets in any order), and equal values have equal hashes, so that they are the same key of a dictionary and the same member of a set. EDN dictionaries cannot be changed by any of the operations of dictionaries, and stay as they were when it is tried.',
     ['inputs', 'histories'],
     'over pairs of values with symbolic names and numbers nested up to a bound, and over attempts to change a dictionary',
     'Tests compare single literals.',
     ['hiku/edn.py'],
     [('values', 'hiku/edn.py Keyword, Symbol, TaggedElement, ImmutableDict')],
     ['==, !=, hash'])

prop('C39', 'Resolver functions are free of data races in the thread pool',
     'When executing with a thread pool, engine state (index, queue, task sets) is only touched by the thread that called execute; resolver calls running in parallel share nothing but what the user passes.',
     ['schedules'],
     'over preemptive interleavings of CPython threads at byte code granularity',
     'Tests run without control over the operating system scheduler.',
     ['hiku/executors/threads.py', 'hiku/engine.py'],
     [('single threaded engine loop', 'hiku/executors/threads.py ThreadsExecutor.process')],
     na='preemption inside CPython and the standard library thread pool is outside what the symbolic executor encodes; completion orders are covered under C03 and C04')

prop('C40', 'SQL sent to a real database selects the rows described',
     'The statements produced by SQL-backed sources select, in a real database, exactly the rows whose key is among the requested identifiers.',
     ['inputs', 'configurations'],
     'over database contents and SQL dialects',
     'Tests run a few statements against SQLite.',
     ['hiku/sources/sqlalchemy.py'],
     [('statement construction', 'hiku/sources/sqlalchemy.py select_expr')],
     na='the meaning of the statement is decided by SQLAlchemy compilation and the database engine, neither of which can be encoded here; what happens to the returned rows is covered under C30')


LEVEL_NOTE = (
    'Symbolic execution of the code in /repo/hiku (rewritten from the working '
    'tree on every run) with z3; every assertion is decided by the solver for '
    'all values within the bounds of the scenario, counterexamples are '
    'replayed on the unmodified code, sampled paths are validated against it. '
    'Trusted: the models of Python built-ins in symx/values.py, z3, and the '
    'stated stubs.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks = []
    na = []
    for p in P:
        h = glob.glob(os.path.join(HERE, 'harness',
                                   p['id'].lower() + '_*.py'))
        if h:
            checks.append({
                'property': p['id'],
                'quick_cmd': './run_check.py %s --tier quick' % p['id'],
                'thorough_cmd': './run_check.py %s --tier thorough' % p['id'],
                'technique': 'bounded symbolic execution of the real code '
                             'with an SMT solver (z3)',
                'level': 'model_checking',
                'level_note': LEVEL_NOTE})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or
                       'no check has been built for it yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
