HOOKS = {"guard": "--cfg vmc_hooks (rustc cfg flag)", "enable": "env.sh adds --cfg vmc_hooks to RUSTFLAGS and sets VMC_HOOKS_GRAFBASE_SDK to h/sdk/hooks.rs, the stand-ins of the gateway that grafbase-sdk then includes",
 "source_commits": ["97ed3ae0b9237ae2961b12f920493dfbf1714435", "89271a1a2481afb270cbaf319906f6be301a9c6a"]}
COMP = "crates/graphql-composition/src"

# ---------------------------------------------------------------- composition
prop("C01", "Composed field and argument types are sound for every contributing subgraph",
 "When several subgraphs declare the same field, argument or input field, composition only succeeds if their types have the same named type and the same list structure. The composed output type is required at a level exactly when every subgraph requires it there, so that any value a subgraph may return is valid; the composed input or argument type is required exactly when at least one subgraph requires it, so that any value a client may send is accepted by all of them.",
 ["inputs", "configurations"], "every combination of wrapping types (nullability and list depth) and named types for a field, argument or input field over 1-3 subgraphs, in every ingestion order",
 "The snapshot tests compose about a hundred hand-written subgraph sets; each fixes one combination of nullability and list depth, never the cross product nor every ingestion order.",
 [f"{COMP}/compose/fields.rs", f"{COMP}/compose/input_object.rs", f"{COMP}/subgraphs/field_types.rs", f"{COMP}/compose.rs"],
 [("compose_output_types / compose_input_types", f"{COMP}/compose/fields.rs"), ("FieldType::compose", f"{COMP}/subgraphs/field_types.rs")],
 observe=["compose(...).into_result()", "render_api_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every pair and triple of type wrappings at every position; expected composed types computed by the model"))
prop("C02", "The composed graph contains exactly the members the subgraphs contribute",
 "Every type, output field, interface implementation, union member and enum value of the composed graph is declared by at least one subgraph, and every one declared by a subgraph is in the composed graph unless a composition rule removes it. Input object fields and arguments are exactly those declared by every subgraph declaring the type or field, and enum values follow how the enum is used: union for output-only, intersection for input-only, identical sets otherwise.",
 ["inputs", "configurations"], "every distribution of a small vocabulary of types, fields, arguments, enum values, members and interfaces over 2-3 subgraphs",
 "Tests cover one distribution per snapshot; membership has to hold for every subset of definitions in every subgraph.",
 [f"{COMP}/compose.rs", f"{COMP}/compose/enums.rs", f"{COMP}/compose/input_object.rs", f"{COMP}/compose/object.rs", f"{COMP}/emit_federated_graph.rs"],
 [("merge_*_definitions", f"{COMP}/compose.rs"), ("merge_enum_definitions", f"{COMP}/compose/enums.rs"), ("compose_input_objects", f"{COMP}/compose/input_object.rs")],
 observe=["FederatedGraph", "render_api_sdl", "render_federated_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every distribution of members over the subgraphs; the members of the rendered supergraph are compared with the model's"))
prop("C03", "Composition does not depend on the order of the subgraphs",
 "Composing the same set of subgraphs yields the same verdict and the same supergraph whatever the order in which they are added. Types, members, nullability, routing, keys, access control and tags are equal for every permutation; only texts and numbers taken from the first subgraph that gives one (descriptions, deprecation reasons, costs, input field defaults) may follow the order.",
 ["histories", "inputs"], "every permutation of every explored subgraph set",
 "The test runner ingests every fixture in file-name order only.",
 [f"{COMP}/compose.rs", f"{COMP}/subgraphs.rs", f"{COMP}/ingest_subgraph.rs"],
 [("Subgraphs::sort_pre_composition", f"{COMP}/subgraphs.rs"), ("compose_subgraphs", f"{COMP}/compose.rs")],
 observe=["render_api_sdl", "render_federated_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every permutation of every explored set; verdict, supergraph and API schema are compared"))
prop("C04", "The API schema exposes exactly the accessible part of the supergraph",
 "The API schema rendered for clients contains exactly the types, fields, arguments, input fields and enum values of the supergraph that are not marked @inaccessible in any subgraph. It contains no federation machinery (join types, federation directives, _entities, _service) and every type it refers to is defined in it.",
 ["inputs", "configurations"], "every placement of @inaccessible (and of no directive) on the elements of a small schema over 1-2 subgraphs",
 "Snapshots show a handful of @inaccessible placements; leaking one hidden element of any kind is a data exposure.",
 [f"{COMP}/federated_graph/render_sdl", f"{COMP}/compose.rs"],
 [("render_api_sdl", f"{COMP}/federated_graph/render_sdl/render_api_sdl.rs"), ("inaccessible propagation", f"{COMP}/compose.rs")],
 observe=["render_api_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every placement of up to three @inaccessible directives and all other spaces; the API schema is compared with the visible part of the model's supergraph"))
prop("C05", "A rendered supergraph parses back to the same supergraph",
 "Rendering a composed graph to federated SDL produces a valid GraphQL document. Reading that document back and rendering it again yields the same federated SDL and the same API schema.",
 ["inputs"], "every explored composition, including descriptions, default values, deprecations and strings with special characters",
 "The existing round trip test uses a few fixtures; escaping and directive rendering have to hold for every string and every directive combination.",
 [f"{COMP}/federated_graph/render_sdl", f"{COMP}/federated_graph/from_sdl"],
 [("render_federated_sdl", f"{COMP}/federated_graph/render_sdl/render_federated_sdl.rs"), ("FederatedGraph::from_sdl", f"{COMP}/federated_graph/from_sdl.rs")],
 observe=["render_federated_sdl", "FederatedGraph::from_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every explored supergraph is parsed with an independent reader, reloaded and rendered again"))
prop("C06", "Each supergraph field is routed only to subgraphs able to resolve it",
 "In the composed supergraph the subgraphs listed for a field are exactly those that define it, where those that only know it as @external are marked external, and minus those whose definition is completely overridden with @override by another subgraph (a progressive override names both). Entity keys recorded for a type are exactly the @key directives its subgraphs declare, with their field selection and resolvability.",
 ["inputs", "configurations"], "every assignment of plain, @external, @shareable, @override, @provides and @requires roles of fields to 2-3 subgraphs, with and without keys",
 "One snapshot per role; the routing table must be right for every combination of roles.",
 [f"{COMP}/compose/object.rs", f"{COMP}/emit_federated_graph.rs", f"{COMP}/compose/entity_interface.rs", f"{COMP}/compose/validate.rs"],
 [("join__field / join__type", f"{COMP}/emit_federated_graph.rs"), ("override", f"{COMP}/compose/object.rs")],
 observe=["render_federated_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every assignment of field roles, keys and subgraph names; the join directives are read back and compared with the model's routing table"))
prop("C07", "Composition rejects subgraphs that contradict each other",
 "Composition fails, with an error diagnostic, whenever two subgraphs define the same name as different kinds of types, whenever Federation 2 subgraphs share an object field that is not marked @shareable (and not part of a key, external or overridden), whenever an input field or argument required by one subgraph is missing in another, and whenever an enum used both as input and output has different values. It succeeds on sets of subgraphs that break none of its rules, and never panics.",
 ["inputs", "configurations"], "every pair and triple of definition kinds, sharing roles, required and optional arguments, and enum value sets over 2-3 subgraphs of both federation versions",
 "Tests exercise one example of each error; missing one combination accepts a supergraph that fails at run time.",
 [f"{COMP}/compose.rs", f"{COMP}/compose/object.rs", f"{COMP}/compose/enums.rs", f"{COMP}/compose/input_object.rs", f"{COMP}/validate"],
 [("compose_subgraphs", f"{COMP}/compose.rs"), ("validate_shareable_object_fields_match", f"{COMP}/compose/object.rs")],
 observe=["compose(...).diagnostics()"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "the verdict on every explored set is compared with the model's rules"))
prop("C08", "Access control and metadata directives survive composition",
 "Every @authenticated, @requiresScopes, @policy, @cost, @listSize, @tag, @deprecated and @inaccessible directive, and every description and argument default value, attached to an element in any subgraph is present on the corresponding element of the composed supergraph. Composition never attaches one of them to an element no subgraph put it on.",
 ["inputs", "configurations"], "every placement of each directive on each element kind over 2 subgraphs",
 "Each directive has one or two fixtures; losing an authorization directive on one element kind silently opens the API.",
 [f"{COMP}/compose/directives.rs", f"{COMP}/ingest_subgraph/directives.rs", f"{COMP}/emit_federated_graph.rs", f"{COMP}/federated_graph/render_sdl"],
 [("collect_composed_directives", f"{COMP}/compose/directives.rs")],
 observe=["render_federated_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "every directive and pair of directives at every location, under every way to link the federation specification, and every description and default; compared with the model's"))

prop("C09", "Extension, composed and composite schema directives reach the supergraph",
 "A directive that a subgraph uses from a linked extension (by its imported name, an alias, or the namespace of the link) appears on the same element of the supergraph as @extension__directive with the subgraph, the directive's own name, the arguments as they were written, and a value of extension__Link that stands for the url of the linked extension and no other; used on the schema, it is listed with that link; extension__Link lists each extension in use once. A directive named by @composeDirective appears on the same elements under its own name, once however many subgraphs use it alike, and its definition has the arguments and locations of all definitions; incompatible definitions, composed directives of extensions and different extensions of the same name are errors. @lookup, @is, @require and @internal of composite schemas appear with their subgraph. Directives that are neither are not in the supergraph.",
 ["inputs", "configurations"], "every directive form, argument shape and element kind over two subgraphs, pairs of directives on an element, directives spread over three subgraphs, all definitions of a composed directive in up to three subgraphs, and all sets of composite schema directives in two",
 "Each form has one fixture; aliases, namespaces, several links and several subgraphs interact through shared tables.",
 [f"{COMP}/ingest_subgraph/directives.rs", f"{COMP}/ingest_subgraph/schema_definitions/link.rs", f"{COMP}/compose/directives.rs", f"{COMP}/compose/directive_definitions.rs", f"{COMP}/emit_federated_graph/emit_extensions.rs", f"{COMP}/validate/extension_names.rs"],
 [("match_directive_name", f"{COMP}/ingest_subgraph/directives/match_name.rs"), ("collect_composed_directives", f"{COMP}/compose/directives.rs")],
 observe=["render_federated_sdl"],
 check=chk("comp", "bounded exhaustive enumeration of sets of subgraphs against a reference model of composition", "model_checking", "the directives at each element and the extensions listed in the supergraph are compared with what the subgraphs say"))

# ---------------------------------------------------------------- schema tooling
SD = "crates/graphql-schema-diff/src"
prop("C10", "A schema diff reports exactly the differences between two schemas",
 "Comparing two valid schemas reports exactly one change for every type or directive definition that was added, removed or changed kind, every added or removed field, argument, enum value, union member, interface implementation and input field, every changed field, argument or input field type, every added, removed or changed argument default, and every changed root operation type, whether the elements are declared in a definition or in an extension. Nothing else is reported: the diff of a schema with itself is empty whatever the order and layout of its definitions. The text a change resolves to is the text of the element in the target.",
 ["inputs"], "every ordered pair of schemas from exhaustively enumerated families of schemas, with definitions reordered, laid out differently or split into extensions",
 "About twenty fixture pairs exist; a diff has to be exact for every pair.",
 [f"{SD}/lib.rs", f"{SD}/state.rs", f"{SD}/traverse_schemas.rs", f"{SD}/change.rs"],
 [("diff", f"{SD}/lib.rs"), ("DiffState::into_changes", f"{SD}/state.rs")], observe=["diff(source, target)", "resolve_spans"],
 check=chk("diff", "bounded exhaustive enumeration of schema pairs against a reference model", "model_checking", "the reported changes and the text they resolve to are compared with the model's for every pair"))
prop("C11", "Patching a schema with its diff yields the target schema",
 "Resolving the diff from a source schema to a target schema and applying it to the source as a patch yields a valid document equivalent to the target, and diffing it against the target reports no change. What is not diffed (descriptions, directive uses, input field defaults and the contents of directive definitions) is, on elements both schemas have, as in the source: nothing is lost. Patching with an empty diff preserves the schema.",
 ["inputs"], "every ordered pair of schemas from exhaustively enumerated families of schemas, with descriptions, directives, comments, strings and extensions",
 "Patch snapshots cover isolated single edits; combined edits interact through source spans.",
 [f"{SD}/patch.rs", f"{SD}/patch/paths.rs", f"{SD}/resolve_spans.rs"],
 [("patch", f"{SD}/patch.rs"), ("resolve_spans", f"{SD}/resolve_spans.rs")], observe=["patch(...)", "resolve_spans"],
 check=chk("diff", "bounded exhaustive enumeration of schema pairs against a reference model", "model_checking", "the patched document is parsed back and compared with the model's for every pair"))
SV = "crates/graphql-schema-validation/src"
prop("C12", "Schema validation accepts exactly the schemas the GraphQL specification allows",
 "A type system document is accepted if and only if it satisfies the type system validation rules of the October 2021 GraphQL specification: unique names, reserved names, non-empty types, input and output type positions, interface implementation, union members, enum values, input object circularity, directive locations and definitions, and root operation types. Definitions and their extensions are judged together, whatever their order. The options add what they say: extensions of types the document does not define are errors only with FORBID_EXTENDING_UNKNOWN_TYPES, deprecated required arguments and input fields only with DRAFT_VALIDATIONS. Directives the document does not define are left alone, the values of defaults and directive arguments are not checked, nor is the circularity of directive definitions; a document needs no root types. Validation never panics.",
 ["inputs"], "every document of exhaustively enumerated families of small documents, with definitions and extensions",
 "Fixtures contain one example per rule; soundness and completeness range over all combinations of rules, positions and extensions.",
 [f"{SV}/lib.rs", f"{SV}/validate", f"{SV}/context.rs"],
 [("validate", f"{SV}/lib.rs"), ("the rules", f"{SV}/validate")], observe=["validate_with_options(sdl, options)"],
 check=chk("valid", "bounded exhaustive enumeration of documents against a reference model of the rules", "exploration", "acceptance by the real validator is compared with the specification's rules, written over a document model, for every document of the spaces, in both definition orders and under the options; trusts that reference model"))
prop("C13", "The schema linter reports exactly the naming convention violations",
 "For every type system document the linter reports each definition, field, argument, enum value, input field and directive whose name breaks the conventions listed in its README (camelCase fields, arguments, input values and directives; PascalCase object types and enums; SHOUTY_CASE enum values; the forbidden prefixes and suffixes of types, enums, unions, interfaces and root fields), with the name it should have, and each use of @deprecated without a reason, wherever it stands, once. Names that start with an underscore or are in the namespace of a specification (`join__Graph`) are exempt from the case conventions. It reports nothing else, and treats extensions like definitions.",
 ["inputs"], "every name shape of a small alphabet and every affix combination at every definition position",
 "One large snapshot; the rules must hold for every name at every position.",
 ["crates/graphql-lint/src/lib.rs", "crates/gqlint/src/main.rs"], [("lint", "crates/graphql-lint/src/lib.rs")], observe=["lint(sdl)"],
 check=chk("valid", "bounded exhaustive enumeration of documents against a reference model of the conventions", "exploration", "the multiset of reported messages is compared with the one the reference model gives, for every name up to length 5 (6) over the distinguished character classes at each of 19 positions, all affix combinations, all @deprecated uses, and pairs of definitions"))
OC = "crates/operation-checks/src"
prop("C14", "Operation checks flag exactly the changes that break recorded operations",
 "Given the operations a schema served, a change of the schema is flagged by the operation check if and only if one of them depends on what changed in a way that breaks it: a used field, argument, enum value (in a literal, at any depth) or root type is removed, the type of a used field or argument changes incompatibly, a used field gains a required argument without a default or one of its arguments becomes required, a default that operations rely on is removed, a fragment relates two types whose relation is removed or names a type that is removed, or a type in use becomes another kind of type. Input types are judged as a whole (their variables' values are not known): removing a field, changing its type or adding a required one without a default is flagged when the input type is reachable from a used argument, with a warning where the field is or becomes optional to send. Usage below the request threshold does not count, checking without operations assumes everything is used, changes nobody depends on are not flagged, and no change makes the check panic.",
 ["inputs", "histories"], "every (schema edit, set of recorded operations) pair of an exhaustively enumerated family",
 "About thirty fixtures, each one edit and one or two operations.",
 [f"{OC}/check.rs", f"{OC}/check/rules.rs", f"{OC}/schema.rs", f"{OC}/schema/async_graphql.rs", f"{OC}/operation/async_graphql.rs", f"{OC}/aggregate_field_usage.rs"],
 [("check", f"{OC}/check.rs"), ("aggregate_field_usage", f"{OC}/aggregate_field_usage.rs")], observe=["check(params).diagnostics"],
 check=chk("opcheck", "stateless exhaustive exploration of schema edits and operation histories on the real crate, against a reference usage/diagnostic model and an independent validity checker", "model_checking",
  "1.4 million (source schema, target schema, operations) triples: every single edit of a 15-type schema against 22 operations in both directions, every argument/field type pair up to two list levels with every way to pass it, all arrangements of arguments over two types, nested fragments, enum literals at any position, all graphs of three input types, request-count histories up to three operations."))

# ---------------------------------------------------------------- shared data types
prop("C20", "Wrapping types behave like the wrapper sequence they encode",
 "The compact encoding of list and non-null wrappers behaves like the explicit sequence of wrappers it stands for: building, popping, iterating, displaying, comparing and stripping agree with that sequence, and two encodings are equal exactly when their sequences are. A wrapping is accepted as equal or more lenient exactly when every value of the other wrapped type is a value of it with the same list structure.",
 ["inputs", "histories"], "every sequence of wrapping operations up to the maximum nesting of 10 lists, and every pair of wrappings up to a bound",
 "Unit tests check four sequences out of thousands; the encoding is bit-twiddling whose edge is the maximum depth.",
 ["crates/graphql-wrapping-types/src/lib.rs", "crates/graphql-wrapping-types/src/mutable.rs"],
 [("Wrapping", "crates/graphql-wrapping-types/src/lib.rs"), ("MutableWrapping", "crates/graphql-wrapping-types/src/mutable.rs")], observe=["Wrapping::iter", "type_display"],
 check=chk("small", "explicit-state exploration of operation sequences against a sequence model", "model_checking",
   "Every reachable wrapping value (all 10 list levels) and every operation on it, on the real code, compared with a Vec model; pairwise relation for all pairs up to 4 list levels."))
prop("C21", "Id-indexed containers behave like the sets, ranges and maps they represent",
 "Bit sets, id ranges, one-to-one and one-to-many maps keyed by typed ids behave like the ordinary sets, intervals and multimaps they represent under every sequence of operations: set algebra, complements, range updates, iteration in both directions, lookup and membership. Derived ids convert to and from integers without loss or refuse the conversion.",
 ["histories", "inputs"], "every operation sequence up to a depth over small universes that straddle the 64-bit block boundary",
 "A single unit test sets one bit.",
 ["crates/engine/id-newtypes/src", "crates/engine/id-derives/src", "crates/engine/walker/src"],
 [("BitSet", "crates/engine/id-newtypes/src/bitset.rs"), ("IdRange", "crates/engine/id-newtypes/src/range.rs"), ("IdToMany", "crates/engine/id-newtypes/src/many.rs"), ("Id derive", "crates/engine/id-derives/src")], observe=["public methods"],
 check=chk("small","explicit-state exploration of operation sequences against std collections","model_checking","All operation histories up to the depth bound on the real containers, compared with BTreeSet/Vec models after every step; id conversions for every 8 and 16 bit value."))
prop("C22", "Field selection maps parse to the selection they denote",
 "Parsing a field selection map accepts exactly the strings of its grammar and yields the selection they denote, whatever the insignificant white space. Displaying a parsed selection and parsing it again yields the same selection.",
 ["inputs"], "every selection tree up to a size bound in several layouts, and every token string up to a length",
 "Unit tests list about fifty strings.",
 ["crates/engine/field-selection-map/src/parser.rs", "crates/engine/field-selection-map/src/model.rs"],
 [("parse", "crates/engine/field-selection-map/src/parser.rs"), ("Display", "crates/engine/field-selection-map/src/model.rs")], observe=["SelectedValue::try_from", "to_string"],
 check=chk("small","exhaustive enumeration of grammar trees and token strings against a reference parser","exploration","Every selection tree within the size bound in three layouts and every token string up to the length bound; trusts the independent recursive descent reference parser."))
prop("C23", "Graph references round-trip through their textual form",
 "A graph reference string is split into graph name, branch and version at the first `@` and the first following `#`; displaying a parsed reference gives back the string it was parsed from. References without a graph name or with an account name are refused, with a suggestion that itself parses.",
 ["inputs"], "every string up to a length over the alphabet of separators and name characters",
 "Seven example strings.",
 ["crates/graph-ref/src/lib.rs"], [("FromStr / Display for GraphRef", "crates/graph-ref/src/lib.rs")], observe=["GraphRef::from_str", "to_string"],
 check=chk("small","exhaustive enumeration of strings against a reference parser","exploration","Every string up to length 7 (8) over the separators and name characters."))
prop("C24", "Environment placeholders expand to the variable's value and nothing else",
 "Every `{{ env.NAME }}` placeholder in a configuration string is replaced by the value of that environment variable and all other text is kept verbatim. A placeholder naming an unset variable or any other scope is an error.",
 ["inputs", "configurations"], "every string of up to a few tokens over placeholders (set, unset, empty, malformed), text and braces",
 "Six example strings.",
 ["crates/serde-dynamic-string/src/lib.rs", "crates/gateway-config/src"], [("DynamicString::from_str", "crates/serde-dynamic-string/src/lib.rs"), ("environment expansion", "crates/gateway-config/src")], observe=["DynamicString::from_str", "Config::load"],
 check=chk("config","exhaustive enumeration of placeholder strings against a reference reader","model_checking","Every string up to a number of tokens over placeholders, near misses, braces and multi-byte text, and every short string over single characters, against an independent reader; also inside real configuration files."))
prop("C25", "Extensions are resolved to the right installed extension",
 "An extension required by a schema link resolves to an installed extension that explicitly associates that link URL if there is one, otherwise to the first installed extension with that name and a version matching the requirement, and to nothing if there is none. Lookups by name and by configuration key agree with the catalog's contents, ids stay stable as extensions are added, and extension ids and manifests survive being written and read back.",
 ["inputs", "histories"], "every catalog of up to 3 extensions over small alphabets of names, versions, link URLs and keys, and every query",
 "One test checks version compatibility for five pairs.",
 ["crates/extension-catalog/src/catalog.rs", "crates/extension/src/id.rs", "crates/extension/src/manifest"],
 [("ExtensionCatalog::find_compatible_extension", "crates/extension-catalog/src/catalog.rs"), ("Id", "crates/extension/src/id.rs"), ("VersionedManifest", "crates/extension/src/manifest")], observe=["find_compatible_extension", "serde_json"],
 check=chk("ext","exhaustive enumeration of catalogs, queries and manifests against a list model","exploration","Every catalog up to 3 extensions over small alphabets and every query; id, manifest and lockfile round trips over enumerated fields."))
prop("C26", "The event queue delivers every accepted event once, in order, and drops the rest",
 "Events whose type passes the configured filter are delivered exactly once and in the order they were pushed, also when several threads push and pop concurrently; events of other types and all events without a filter are dropped and their payload is never built. Delivered events carry the data they were built with.",
 ["schedules", "histories", "configurations"], "every filter configuration, every operation sequence up to a depth, every interleaving of 2-3 threads' operations",
 "There is no test of the queue's filtering or ordering.",
 ["crates/event-queue/src/lib.rs", "crates/event-queue/src/filter.rs", "crates/event-queue/src/events.rs"],
 [("EventQueue", "crates/event-queue/src/lib.rs")], observe=["push_*", "pop"],
 check=chk("tele","exploration of operation histories and of thread schedules of the real queue under a controlled scheduler, and enumeration of event contents","model_checking","Every history of pushes and pops under every filter up to the depth; every interleaving of the operations of two and three real threads taking turns; every event builder with every combination of set and unset fields."))

# ---------------------------------------------------------------- configuration
GC = "crates/gateway-config/src"
prop("C30", "Telemetry settings resolve to the documented local or global value",
 "For traces, metrics and logs, the exporters in effect and each of their settings (enabled, endpoint, protocol with its headers and TLS settings, timeout, batching) are those of the signal's own section when given, otherwise of the global section, otherwise the documented default. Settings of one signal never influence another signal. The exporter towards Grafbase is in effect exactly when it is configured and not disabled, and is never shadowed by the other exporters.",
 ["configurations"], "every combination of present and absent, enabled and disabled settings at global and signal level",
 "Tests fix about a dozen of the thousands of combinations.",
 [f"{GC}/telemetry/mod.rs", f"{GC}/telemetry/exporters.rs", f"{GC}/telemetry/exporters"], [("TelemetryConfig::{tracing,metrics,logs}_*_config", f"{GC}/telemetry/mod.rs"), ("LayeredOtlExporterConfig", f"{GC}/telemetry/exporters")], observe=["TelemetryConfig accessors", "LayeredOtlExporterConfig accessors"],
 check=chk("config","exhaustive enumeration of configurations against a reference resolution","model_checking","Every presence and value combination of the OTLP settings at both levels with another signal configured or not, and of the stdout and Grafbase exporters; documents are read by the real configuration reader."))
prop("C31", "Gateway configuration is read strictly",
 "A configuration document is accepted only if every key is known, every value is in its documented domain (types, sizes, durations, ratios, enumerations, addresses, versions, header rules) and the mandatory keys of each section are present; otherwise reading it fails with an error, and the error for an unknown key names it. Accepted documents yield exactly the values written in them, and every absent setting has its documented default. No document makes the process panic.",
 ["configurations", "inputs"], "every setting with each of a set of boundary values, every pair of settings, every section empty, every misspelt key of every table",
 "The tests check chosen sections and values.",
 [f"{GC}/lib.rs", f"{GC}"], [("Config", f"{GC}/lib.rs"), ("deserializers of each section", f"{GC}")], observe=["toml::from_str::<Config>", "Config::load"],
 check=chk("config","exhaustive enumeration of configuration documents against a table of settings","model_checking","All of the about 200 settings with over 100 values each, alone and with their section completed; every pair (thorough: triple) of settings; pairs of empty sections; unknown keys in every table; header rules with every set of keys. The whole configuration is compared, so that a setting leaking into another one shows."))
prop("C32", "Relative paths in the configuration resolve against the configuration file",
 "The relative paths of extensions, of subgraph schemas and of the WASM cache in a configuration file are resolved against the directory of that file, wherever the process was started and however the file was named, and absolute paths are kept as they are. Environment placeholders inside any string of the document, however deeply nested, are expanded before the string is interpreted, and a placeholder without a value is refused with an error naming the setting.",
 ["configurations"], "every combination of relative, parent-relative, absolute and placeholder paths at every path setting, every setting given through a placeholder",
 "One path setting is tested.",
 [f"{GC}/lib.rs"], [("Loader::load", f"{GC}/lib.rs"), ("Config::with_absolute_paths", f"{GC}/lib.rs")], observe=["Config::load", "Loader::load"],
 check=chk("config","exhaustive enumeration of files, working directories and path spellings against a reference resolution","model_checking","Six ways of naming and placing the file times the spellings of the three resolved paths; every setting given through environment variables with every value in the alphabet, and with partial, missing, malformed and nested placeholders."))

prop("C33", "Telemetry is sent where the configuration says, with what it says",
 "Traces, metrics and logs are each exported exactly when enabled, to the endpoint and over the protocol in effect for the signal: over HTTP to the signal's own endpoint as it is, or to the global one at `/v1/traces`, `/v1/metrics` or `/v1/logs` when it has no path of its own, over gRPC to the OTLP service of the signal, and by default to the standard ports of the local host. Traces and metrics go to the Grafbase exporter, too, when that is configured. Exports carry the configured headers, and as resource the service name and the configured attributes. Each measure is exported once to every exporter and batches are not larger than configured. No configuration makes building the exporters panic.",
 ["configurations", "histories"], "every way to place and spell endpoints, protocols, headers and resource attributes, every history of measures and exports up to a depth",
 "The tests stop at the parsed configuration: nothing exports anything.",
 ["crates/telemetry/src/otel"], [("build", "crates/telemetry/src/otel/layer.rs"), ("build_trace_provider", "crates/telemetry/src/otel/traces.rs"), ("build_meter_provider", "crates/telemetry/src/otel/metrics.rs"), ("build_logs_provider", "crates/telemetry/src/otel/logs.rs")], observe=["requests arriving at collectors on the loopback interface"],
 check=chk("tele","exhaustive enumeration of configurations and of histories of measures, exported by the real pipeline to collectors, against a reference model","model_checking","Real exporters send over HTTP and gRPC to collectors on the loopback interface, which decode what arrives: every placement and spelling of endpoints per signal and protocol, every way to switch signals and the Grafbase exporter, sets of headers valid and not, resource attributes, histories of counts and exports, batch sizes."))

# ---------------------------------------------------------------- runtime libraries
RL = "crates/rolling-logger/src/lib.rs"
prop("C40", "No log record is lost or reordered by log rotation",
 "Every byte the rolling logger reported as written is in the current log file or in exactly one rotated file, in the order written, for every rotation strategy, any number of rotations, restarts of the process, crashes and failed or partial writes in between. Rotation never overwrites or truncates an existing file, and once I/O errors cease logging works again.",
 ["histories", "fault_sequences", "crash_points"], "every history of writes, clock advances, restarts and injected I/O answers up to a bound, for every strategy",
 "Tests perform one rotation per strategy with real time and no faults.",
 [RL, RL.replace("lib.rs","log_file.rs")], [("RollingLogger::write / rotation", RL)], observe=["files in the log directory"],
 check=chk("roll","exploration of operation, fault and crash histories of the real logger under an interposed operating system","model_checking","Every history of writes, clock steps, flushes and restarts up to the depth, with every placement of the fault and crash budget at the write, rename and open calls; real code on real files."))
prop("C41", "Log files rotate exactly when the strategy says",
 "The log file is rotated by the first write after it is due and never earlier. With size rotation it is due when it already holds at least the configured number of bytes; with time rotation when a full minute, hour, day, week, 30-day month or 365-day year has elapsed since the logger started or last rotated. With the `never` strategy there is only ever one file.",
 ["histories", "configurations"], "every history of writes and clock positions around every boundary for every strategy, including restarts",
 "Tests cross a single boundary of three strategies.",
 [RL, RL.replace("lib.rs","log_file.rs"), RL.replace("lib.rs","strategy.rs")], [("RotateStrategy", RL.replace("lib.rs","strategy.rs")), ("LogFile::needs_rotation", RL.replace("lib.rs","log_file.rs"))], observe=["files in the log directory"],
 check=chk("roll","exploration of write, clock and restart histories of the real logger under a virtual clock","model_checking","Every history up to the depth over clock steps around every boundary of every strategy; the reference model decides after each write whether it had to rotate."))
T = "crates/telemetry/src"
prop("C43", "Exported log records carry the event faithfully within their limits",
 "Each tracing event produces exactly one exported log record with its severity, target, event name, source location and fields; the message is its body. Messages are cut after 8192 bytes, other strings and byte strings after 1024, never within a character, and at most 50 fields are exported, with the number of those left out reported. The record names the trace and the span the event belongs to: the current one, the one it names as parent, or none for root events. No event content makes the process panic.",
 ["inputs", "histories"], "every combination of level, field kind, name and position, field counts and string lengths around the limits with characters of one to four bytes, every history of spans and events up to a depth",
 "The bridge has no test with long or multi-byte strings, many fields or nested spans.",
 [f"{T}/otel/logs/bridge.rs"], [("OtelLogsLayer", f"{T}/otel/logs/bridge.rs")], observe=["exported LogRecord"],
 check=chk("tele","exhaustive enumeration of events and exploration of span histories through the real bridge, against a reference model","model_checking","Events are made at run time with any fields; every history of opening and leaving spans and of events in the current, the first, the last and no span, below local and remote parents."))
prop("C44", "Trace export honours sampling and collection limits",
 "The tracing pipeline samples a trace exactly as configured (ratio of the trace id, or the parent's decision when parent-based sampling is on) and an exported span carries no more attributes, events, links, event attributes and link attributes than configured (128 by default), with the excess counted as dropped.",
 ["configurations", "inputs"], "every combination of small limits, each limit at its boundary, sampler settings with trace ids at the boundary of the ratio and every kind of parent",
 "There is no behavioural test of the pipeline.",
 [f"{T}/otel/traces.rs", f"{T}/otel/layer.rs"], [("build_trace_provider", f"{T}/otel/traces.rs")], observe=["exported spans"],
 check=chk("tele","exhaustive enumeration of limits, samplers and trace ids through the real pipeline, against a reference model","model_checking","Spans are exported over OTLP to a collector on the loopback interface and compared, dropped counts included."))
prop("C45", "Response telemetry reflects what happened",
 "The status recorded for a stream of responses is that of the worst of them, whatever their order, with the field errors of all counted and data reported as null when any of them had null data. Spans and metrics of requests, operations, subgraph requests, resolvers and caches carry exactly the documented attributes, errors are marked as such, latencies and sizes are recorded under the right instrument, and the client is the one the headers of the request name.",
 ["inputs", "histories"], "every sequence of response statuses up to a length, every combination of operation, status, header and attribute values, every history of measures up to a depth",
 "No test combines statuses or looks at recorded attributes.",
 [f"{T}/graphql.rs", f"{T}/metrics", f"{T}/span", f"{T}/grafbase_client.rs"], [("GraphqlResponseStatus::union", f"{T}/graphql.rs"), ("EngineMetrics", f"{T}/metrics/engine.rs"), ("GraphqlOperationSpan", f"{T}/span/graphql.rs")], observe=["public API", "span attributes", "exported metrics"],
 check=chk("tele","exhaustive enumeration of status sequences, span contents and histories of measures against a reference model","model_checking","Span attributes are read by a layer of its own, metrics from what the real pipeline exports to a collector on the loopback interface."))

# ---------------------------------------------------------------- extension SDK
SDK = "crates/grafbase-sdk/src"
SDKT = "exhaustive enumeration of histories of calls from the gateway into a real extension, against a reference model of the gateway"
prop("C46", "The gateway gets the token or the error of an authentication extension",
 "For every request an authentication extension sees the headers and the context of that request, and the gateway gets exactly its token and the unchanged headers, or exactly its error response (status, errors in order, headers). The events it sends arrive in order, once, with the request they belong to, and the context is given back. The public metadata endpoints arrive with the path, body and headers they were built with, in order, or the error does.",
 ["inputs", "histories"], "every history of requests up to a depth over headers, contexts, tokens, error responses and events, and every short list of endpoints",
 "Tests of authentication extensions need a running gateway; none covers the answers that are errors or the endpoints.",
 [f"{SDK}/component/authentication.rs", f"{SDK}/extension/authentication.rs", f"{SDK}/types/authentication.rs", f"{SDK}/types/token.rs", f"{SDK}/types/error_response.rs"], [("authenticate / public_metadata", f"{SDK}/component/authentication.rs"), ("Token", f"{SDK}/types/token.rs")], observe=["wit results", "event queue"],
 check=chk("sdk", SDKT, "model_checking", "The crate's real exports are called in place of the gateway."))
prop("C47", "Headers are a multimap without case and HTTP requests go out as they were built",
 "The headers an extension reads or changes behave as a multimap of case-insensitive names whose values keep their order, whatever types names and values are passed as, and the gateway ends up with exactly that multimap. The gateway is asked to run exactly the HTTP request that was built (method, URL, headers, body, timeout), and its answer or its error comes back unchanged, for single requests and, in their order, for batches.",
 ["inputs", "histories"], "every sequence of operations on headers up to a depth; every request of a vocabulary of methods, URLs, headers, bodies and timeouts; every short batch with every kind of answer",
 "No test covers the HTTP client of the SDK or the semantics of its headers.",
 [f"{SDK}/types/headers.rs", f"{SDK}/host_io/http.rs"], [("Headers", f"{SDK}/types/headers.rs"), ("HttpRequestBuilder / execute", f"{SDK}/host_io/http.rs")], observe=["requests handed to the host", "public API of headers and responses"],
 check=chk("sdk", "exhaustive enumeration of operation sequences and requests against a reference multimap and the request as it was described", "model_checking", "The stand-in of the host stores headers and answers requests."))
prop("C48", "NATS, Kafka and gRPC calls reach the gateway and come back unaltered",
 "Connecting, publishing, requesting, subscribing, key-value operations, producing, consuming and unary or streaming gRPC calls ask the gateway for exactly what the extension asked (servers, credentials, subjects, keys, payloads, metadata, timeouts, every option of a stream, producer or consumer). Payloads, messages, headers, offsets, statuses and errors come back exactly as the gateway gave them, in order, also when the subscription is the answer of a resolver. A payload that cannot be serialized is an error and nothing is sent.",
 ["inputs", "histories"], "every configuration of a vocabulary of options, every call with every kind of payload, failure and timeout, every sequence of messages, ends and failures up to a depth",
 "Tests of these clients need running brokers; none runs here.",
 [f"{SDK}/host_io/nats.rs", f"{SDK}/host_io/kafka.rs", f"{SDK}/host_io/kafka", f"{SDK}/host_io/grpc.rs"], [("NatsClient", f"{SDK}/host_io/nats.rs"), ("KafkaConsumer / KafkaProducer", f"{SDK}/host_io/kafka"), ("GrpcClient", f"{SDK}/host_io/grpc.rs")], observe=["calls handed to the host", "public API of messages"],
 check=chk("sdk", SDKT, "model_checking", "The stand-ins of the host record the calls and answer from a script."))
prop("C50", "Authorization decisions reach exactly the elements they were made for",
 "The decisions an authorization extension builds (grant all, deny all, deny some with their errors) are delivered to the gateway for exactly the query elements, or response elements, they were made for, with the right error each, and so are its errors, headers and state. Iterating query or response elements, grouped by directive or in order, visits every element exactly once with its own directive, site and arguments, and the extension is given the headers, token and context of the very request.",
 ["inputs", "histories"], "every list of groups of elements up to a bound, every assignment and order of denials, every kind of site, error and header, every history of calls up to a depth",
 "No test covers the builders or the elements.",
 [f"{SDK}/types/authorization.rs", f"{SDK}/types/elements", f"{SDK}/types/error_response.rs", f"{SDK}/extension/authorization.rs"], [("AuthorizationDecisions", f"{SDK}/types/authorization.rs"), ("QueryElements / ResponseElements", f"{SDK}/types/elements")], observe=["wit types handed to the host"],
 check=chk("sdk", SDKT, "model_checking", "The crate's real exports are called in place of the gateway; host resources (headers, context, event queue) are stand-ins that record."))
prop("C51", "The gateway gets the accessibility and priority of every contract rule",
 "A contract extension is shown the directives of the schema with their own arguments and sites and the subgraphs. For every directive the gateway gets the accessibility and the priority of the last rule the extension gave for it and the default of the contract for those it gave none for. Whether unreachable types are hidden and which subgraph URLs change is what the extension said last.",
 ["inputs", "histories"], "every history of rules, of defaults and of subgraph updates up to a bound over every short list of directives",
 "No test covers contracts.",
 [f"{SDK}/types/contract.rs", f"{SDK}/extension/contracts.rs"], [("Contract", f"{SDK}/types/contract.rs")], observe=["wit contract handed to the host"],
 check=chk("sdk", SDKT, "model_checking", "Accessibility and priority are read back from the encoding the gateway is documented to read."))
prop("C52", "A jq selection that compiled filters before answers as a new one does",
 "Selecting with a jq filter gives the same results and the same errors whatever filters, valid or not, the instance has run before, and equals what the filter language says. Each filter is compiled and kept once: running known filters again keeps no more memory.",
 ["inputs", "histories"], "every history of filters and data up to a depth over a vocabulary of valid and invalid filters",
 "Tests run a few filters once each; the cache of compiled filters only matters on the second run.",
 [f"{SDK}/jq_selection.rs"], [("JqSelection::select", f"{SDK}/jq_selection.rs")], observe=["results of select", "allocated bytes"],
 check=chk("sdk", "exploration of every history of selections on one instance, compared with fresh instances and with a reference evaluator", "model_checking", "Memory is counted by an allocator of the harness."))
prop("C53", "A resolver sees the field, arguments and schema it is asked for",
 "The field a resolver extension is given has the alias, definition, directive, arguments and selection set the gateway sent, for the whole tree of the selections, variables included. The subgraph schemas it is initialized with show every type, field, argument and directive with its own kind, names, types and values.",
 ["inputs"], "every tree of selections up to a size with every reference into the argument table, every small schema with every kind of definition, wrapping and directive",
 "There is no test that builds selections or schemas outside of a running gateway.",
 [f"{SDK}/types/resolver.rs", f"{SDK}/types/selection_set.rs", f"{SDK}/types/schema.rs", f"{SDK}/component/resolver.rs"], [("ResolvedField / SelectionSet", f"{SDK}/types/resolver"), ("SubgraphSchema", f"{SDK}/types/schema.rs")], observe=["public API of the extension types"],
 check=chk("sdk", "exhaustive enumeration of selections and schemas through the real exports, against what was sent", "model_checking", "Extension initialization and resolver calls go through the crate's real exports."))
prop("C54", "Data exchanged with an extension is what the other side wrote",
 "Whatever an extension serializes for the gateway (response data, directive and state values, events) arrives as the very same value, in CBOR or JSON, and whatever the gateway sends (arguments, configuration, directives, data) is deserialized to the value it wrote, or refused with an error when it does not fit the type asked for. Nothing is altered, lost or wrapped and nothing panics.",
 ["inputs"], "every serde data model value up to a nesting depth with numbers and lengths at the boundaries of their encodings, in every place data crosses",
 "Tests round-trip a few documents; boundaries of integers, floats, lengths and nested options need all of them.",
 [f"{SDK}/cbor.rs", f"{SDK}/types/data.rs", f"{SDK}/types/response.rs", f"{SDK}/host_io/event_queue.rs", f"{SDK}/types/configuration.rs"], [("cbor", f"{SDK}/cbor.rs"), ("Response / ResponseData", f"{SDK}/types/response.rs")], observe=["bytes handed to the host", "deserialized values"],
 check=chk("sdk", "exhaustive enumeration of values over every kind of the serde data model, through every crossing, against an encoder and decoder of its own", "model_checking", "Written values are decoded by an independent CBOR and JSON reader."))
prop("C55", "Resolver calls and subscriptions each have their own state from start to end",
 "Each call of a resolver extension (prepare, resolve, create a subscription, take its items, drop it) gets the context, headers, prepared data and arguments of that call, and its answer is the one the extension gave for it. A subscription yields exactly its items in order, ends once, is dropped once, and what it borrows lives as long as it does. The event queue of the request is handed back to the gateway with each call.",
 ["histories"], "every history of calls up to a depth: prepare, resolve, single, multiple, failing and ending items, early drops, with and without key sharing",
 "Nothing tests subscriptions outside of a running gateway.",
 [f"{SDK}/component/resolver.rs", f"{SDK}/component/state.rs", f"{SDK}/extension/resolver.rs"], [("subscription state", f"{SDK}/component/state.rs"), ("Subscription / IntoSubscription", f"{SDK}/extension/resolver.rs")], observe=["wit results", "drops and liveness of borrowed data"],
 check=chk("sdk", SDKT, "model_checking", "An allocator of the harness watches the memory a subscription borrows."))
prop("C56", "The cache of the SDK stores what was computed, once, under its own key",
 "A cache is created with the name, size and time to live it was built with. A value that is not cached is computed once and stored, a cached one is returned without computing it, whatever function of the cache is used, and a computation that fails releases the key so that the next one can be made. Each call waits with its own timeout or that of the cache.",
 ["inputs", "histories"], "every history of calls up to a depth over all functions, keys, results (nested ones included) and timeouts",
 "No test covers the cache of the SDK.",
 [f"{SDK}/host_io/cache.rs"], [("Cache", f"{SDK}/host_io/cache.rs")], observe=["calls handed to the host", "returned values"],
 check=chk("sdk", SDKT, "model_checking", "The stand-in of the host is a store with reservations."))
prop("C57", "Postgres statements get their own values and rows come back as they are",
 "The gateway gets the very statement with the values bound to it, each with the value, type and array elements it was given, from Rust values or from JSON for a column, and a value that does not fit its column is an error instead of another value. Every column of every row comes back as the value it is, nulls and arrays with their elements in order. A transaction is committed or rolled back exactly once and never panics.",
 ["inputs", "histories"], "every value of every type at its boundaries, alone and in arrays, every pair of bound values, every JSON value for every column type, every row of columns up to a bound, every history of a transaction with failures",
 "Tests of the Postgres client need a running database; none runs here.",
 [f"{SDK}/host_io/postgres"], [("QueryBuilder / DatabaseValue", f"{SDK}/host_io/postgres"), ("Row / ColumnIterator", f"{SDK}/host_io/postgres/query.rs")], observe=["statements and parameters handed to the host", "returned rows"],
 check=chk("sdk", SDKT, "model_checking", "The stand-in of the host records statements and gives scripted rows and failures."))
prop("C58", "Log records of an extension reach the gateway when their level says so",
 "A log record of an extension reaches the gateway if and only if the most specific directive for its target, or the default level, allows its level, whatever spelling the levels are configured in. It arrives with its own level, message and fields of their own types. A file logger is opened with the path and rotation asked for and gets each record once, in order, and failures are reported.",
 ["inputs", "configurations"], "every filter string of a vocabulary with every level and target, every kind of field value, every rotation and every sequence of writes up to a depth",
 "No test covers logging from an extension.",
 [f"{SDK}/host_io/logger", f"{SDK}/component/state.rs"], [("HostLogger", f"{SDK}/host_io/logger/system.rs"), ("FileLogger", f"{SDK}/host_io/logger/file.rs")], observe=["entries handed to the host"],
 check=chk("sdk", SDKT, "model_checking", "Each filter is tried in a process of its own since the logger of a process can be set once."))
prop("C59", "Hooks see the request and response as they are and change what they say",
 "A hook sees the URL, method, status, headers, context and events of its own request, and the gateway gets exactly the headers, status, context, contract key, URL or method the hook leaves, or exactly its error. The events a hook of the response reads are those of the request, each with its own kind and data, in their order. Events a hook sends arrive in order with the request they belong to.",
 ["inputs", "histories"], "every kind of event with every kind of data, every sequence of header changes up to a depth with every answer of each hook, every history of hooks of interleaved requests",
 "Tests of hooks need a running gateway; none covers the events.",
 [f"{SDK}/component/hooks.rs", f"{SDK}/extension/hooks.rs", f"{SDK}/types/hooks.rs", f"{SDK}/host_io/event_queue.rs"], [("HooksGuest", f"{SDK}/component/hooks.rs"), ("EventQueue", f"{SDK}/host_io/event_queue.rs")], observe=["wit results", "events read"],
 check=chk("sdk", SDKT, "model_checking", "The crate's real exports are called in place of the gateway."))

# ---------------------------------------------------------------- engine
NA_ENGINE = "the crate does not build in this sandbox: it needs git dependencies and registry crates (wasmtime, ramhorns, graphql-parser, lasso2 ...) that cannot be fetched offline, so no execution of the real code can be explored"
prop("C60", "Query plans only ask a subgraph for fields it can resolve",
 "For every valid operation the planner produces subgraph requests that together fetch every requested field, each from a subgraph that defines it and only after the keys and required fields it depends on are available. The result shape is the one the operation asks for.",
 ["inputs", "programs"], "every operation and every distribution of fields over subgraphs up to a bound",
 "Integration tests sample plans with snapshots.",
 ["crates/engine/query-solver/src", "crates/engine/operation/src", "crates/engine/schema/src"], [("solve", "crates/engine/query-solver/src")], na=NA_ENGINE)
prop("C61", "Responses obey GraphQL null propagation and field errors",
 "A response merged from subgraph responses is a valid GraphQL response for the operation: a null or error in a non-null position nulls the nearest nullable ancestor, every error has its path, and no field the client did not ask for is present.",
 ["inputs", "fault_sequences"], "every subgraph response shape including nulls, missing fields, errors and failed requests",
 "Integration tests sample response shapes.",
 ["crates/engine/src/response", "crates/engine/src/execution"], [("response ingestion", "crates/engine/src/response")], na=NA_ENGINE)
prop("C62", "Unauthorized fields are never fetched nor returned",
 "A field, type or argument guarded by @authenticated, @requiresScopes or an authorization extension is neither requested from a subgraph nor returned to a client that lacks the authorization, however it is reached (fragments, aliases, interfaces, required fields).",
 ["inputs", "configurations"], "every operation over guarded schemas and every token",
 "Integration tests sample guarded operations.",
 ["crates/engine/src", "crates/engine/query-solver/src"], [("query modifiers", "crates/engine/src/prepare")], na=NA_ENGINE)
prop("C63", "Configuration and schema reloads never interrupt or corrupt in-flight requests",
 "While the gateway reloads its configuration or its schema, each request is served entirely by one configuration and one schema, and an invalid update leaves the running one in place.",
 ["schedules", "fault_sequences"], "every interleaving of requests, file changes and update events",
 "Integration tests reload once.",
 ["crates/federated-server/src", "gateway/src"], [("engine reloader", "crates/federated-server/src")], na=NA_ENGINE)
prop("C64", "Operation limits and signatures do not depend on how an operation is written",
 "Depth, height, alias, root field, complexity and size limits refuse exactly the operations over the limit, counting fragments and aliases as if they were expanded; normalized operations with the same meaning have the same signature and never contain client literals.",
 ["inputs"], "every operation up to a size bound",
 "Integration tests sample each limit.",
 ["crates/engine/operation/src", "crates/operation-normalizer/src"], [("limits", "crates/engine/src/prepare"), ("normalize", "crates/operation-normalizer/src")], na=NA_ENGINE)
prop("C65", "MCP tools expose exactly the operations the schema allows",
 "The MCP server verifies and executes exactly the operations valid for the schema it introspected, and refuses mutations unless they are enabled.",
 ["inputs", "configurations"], "every operation and setting", "Integration tests sample.",
 ["crates/mcp/src"], [("tools", "crates/mcp/src")], na=NA_ENGINE)
