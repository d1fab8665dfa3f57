#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})
CORE = "packages/stylist-core/src/"
ST = "packages/stylist/src/"
MA = "packages/stylist-macros/src/"

p("C01", "Every selector of a scoped style is confined to the style's class",
  "When a style sheet is rendered for a class name, each selector it contains is emitted either with every `&` and `:root` replaced by `.class`, or, when it has neither, prefixed by `.class` (followed by a space unless the selector starts with `:`). No selector of a scoped style is ever emitted without the class, and its remaining text is unchanged.",
  ["inputs"], "every selector text, every number and split of fragments, every class name",
  "The unit tests render four selectors; the property is about every selector text and fragment split.",
  [CORE+"ast/selector.rs", CORE+"ast/block.rs"], [("Selector rendering", CORE+"ast/selector.rs"), ("selector list joining", CORE+"ast/block.rs")])
p("C02", "Global styles are never scoped: & means :root, other text is verbatim",
  "When a sheet is rendered without a class name, every `&` in a selector is replaced by `:root` and every other selector is emitted exactly as written. A style registered as global is rendered without a class name and a scoped style with its own id as class name, on every path that renders it.",
  ["inputs", "configurations"], "every selector, every registered key, both creation and hydration paths",
  "Tests render a handful of global sheets on one path; the hydration path is never rendered as global by any test.",
  [CORE+"ast/selector.rs", ST+"manager/mod.rs"], [("Selector rendering, class-less arm", CORE+"ast/selector.rs"), ("class name passed when rendering a key", ST+"manager/mod.rs")])
p("C03", "Rendered CSS blocks are balanced and nested in source order",
  "Rendering a sheet closes every block it opens: a block that is opened for k conditions writes k opening lines, outermost condition first, and later exactly k closing braces, and each node closes its own context after its contents. A context that differs from the block currently open first closes that block, and conditions shared with the open parent are not repeated.",
  ["inputs", "programs"], "every sheet (all nestings of blocks, at-rules and declarations)",
  "Tests compare about ten rendered sheets; nestings are unbounded.",
  [CORE+"ast/context.rs", CORE+"ast/block.rs", CORE+"ast/rule.rs"], [("start/finish and the open flag", CORE+"ast/context.rs"), ("finish after contents", CORE+"ast/block.rs"), ("finish after contents", CORE+"ast/rule.rs")])
p("C04", "Every node of a sheet is rendered once, in order, as `key: value;`",
  "Rendering visits every scope, block, rule, declaration and string fragment of the sheet exactly once and in source order. Each declaration opens its context and is written as its key, `: `, all value fragments unchanged and concatenated, and `;` on its own line; selectors of a list are separated by `, ` and nothing is dropped, repeated or reordered.",
  ["inputs"], "every sheet", "Tests render a few sheets with few nodes per list.",
  [CORE+"ast/style_attr.rs", CORE+"ast/block.rs", CORE+"ast/rule.rs", CORE+"ast/sheet.rs", CORE+"ast/scope_content.rs", CORE+"ast/rule_block_content.rs", CORE+"ast/str_frag.rs"],
  [("ToStyleStr implementations", CORE+"ast/")])
p("C05", "A declaration without own selector gets the nearest enclosing selector",
  "A block with its own selector list is rendered under it; a block without one is rendered under the enclosing block's selector if there is one, otherwise under `.class`, and under `:root` for a class-less (global) sheet. At-rules keep the selector of the place they are nested in, and add their condition as the innermost at-rule condition.",
  ["inputs"], "every nesting of blocks and rules, scoped and global", "Tests cover three of the combinations at one depth.",
  [CORE+"ast/context.rs", CORE+"ast/block.rs"], [("child context construction", CORE+"ast/context.rs")])
p("C06", "The parser accounts for the whole input or reports an error",
  "Parsing a style string either represents all of the input in the sheet, or returns an error; no successful parse stops early and silently drops the rest, and a parser failure of any kind is never turned into an (empty or partial) sheet. The same holds for the `${}` splitter used by the macros.",
  ["inputs"], "every input string", "Tests parse about 40 strings.",
  [CORE+"parser.rs", MA+"literal/fstring.rs"], [("sheet/scope repetition", CORE+"parser.rs"), ("all_consuming", MA+"literal/fstring.rs")])
p("C07", "Parsed nodes keep the author's text and order",
  "Every selector, declaration key, declaration value and at-rule condition in a parsed sheet is the exact source text it was recognised from, apart from surrounding white space; nodes appear in source order, none is dropped, merged or duplicated, and each is placed in the node kind it was recognised as.",
  ["inputs"], "every accepted input string", "Tests compare the AST of about 40 inputs.",
  [CORE+"parser.rs"], [("semantic actions of the parser", CORE+"parser.rs")])
p("C08", "Strings, comments and interpolations are lexed by their delimiters only",
  "Between tokens, a comment runs from `/*` to the first `*/`; in a declaration value or a selector, a quoted string runs from `\"` to the first `\"` not preceded by a backslash escape, whatever it contains (braces, semicolons, comment openers); an interpolation is `${`, an identifier of letters, digits and underscores starting with a letter, `}`. Outside of those, a declaration value ends at `;`, `}` or `{`, and a declaration key is a CSS identifier.",
  ["inputs"], "every input string", "Tests try a few strings and comments.",
  [CORE+"parser.rs", MA+"literal/fstring.rs"], [("cmt, string, interpolation, ident, value recognisers", CORE+"parser.rs")])
p("C09", "Parsing and rendering never panic or loop forever on any input",
  "For every input string, parsing a sheet (and splitting an interpolated string) returns a sheet or an error and terminates, and rendering a sheet returns a string: no reachable panic, unchecked indexing, slicing at computed byte offsets, unwrap of a fallible value, or repetition of a recogniser that can succeed without consuming input.",
  ["inputs"], "every input string, every sheet", "No test can try all inputs; fuzzing is not part of the suite.",
  [CORE+"parser.rs", CORE+"ast/", MA+"literal/fstring.rs"], [("recognisers and semantic actions", CORE+"parser.rs"), ("rendering", CORE+"ast/")])
p("C10", "The parse cache is invisible: same text, same result, errors not cached",
  "Parsing a string yields what the parser produces for exactly that string, whether or not it was parsed before: a cached sheet is only returned for an identical string, only successfully parsed sheets are stored, under the text they were parsed from, and a parse error never leaves an entry behind.",
  ["inputs", "histories"], "every sequence of parsed strings", "Tests do not parse the same string twice and compare.",
  [CORE+"ast/sheet.rs"], [("CACHED_SHEETS lookup and insert", CORE+"ast/sheet.rs")], [("CACHED_SHEETS", "text -> parsed sheet", CORE+"ast/sheet.rs")])
p("C11", "Conditional at-rules are accepted alike at every nesting level",
  "The conditional group at-rules `@media`, `@supports` and `@container` are accepted with the same condition syntax at the top level of a sheet, inside a conditional rule, inside a block, and inside a rule inside a block; `@keyframes` is accepted wherever a scope is, with keyframe blocks as its contents. A blank body (white space and comments only) and a body of terminated declarations are accepted at every level.",
  ["inputs"], "every nesting position and each at-rule", "Tests cover individual combinations of at-rule and nesting position.",
  [CORE+"parser.rs"], [("at_rule, rule_block, keyframes, scope_contents", CORE+"parser.rs")])
p("C12", "Equal styles share one registration; a registry hit has no side effects",
  "Requesting a style whose key (scope kind, prefix, sheet) is registered with that manager returns the registered style itself, and performs nothing else: no id is generated, nothing is rendered, mounted, collected for server-side rendering or registered again.",
  ["histories", "inputs"], "every history of style creations on a manager", "One test creates the same style twice and compares the rendered text only.",
  [ST+"manager/mod.rs", ST+"manager/registry.rs"], [("lookup before creation", ST+"manager/mod.rs")], [("registry", "key -> live style", ST+"manager/registry.rs")])
p("C13", "Style identity covers scope kind, prefix and the entire sheet",
  "Two style requests are identical only if their scope kind, their prefix and every node, field and fragment of their sheets are equal; equality and hash agree (equal keys hash equally), and neither depends on how a node is stored (borrowed or owned).",
  ["inputs"], "every pair of keys", "A test compares one pair that differs in the prefix.",
  [ST+"manager/key.rs", CORE+"ast/", CORE+"bow.rs"], [("PartialEq/Eq/Hash implementations", ST+"manager/key.rs"), ("Bow equality and hash", CORE+"bow.rs")])
p("C14", "Every new style gets an id of its prefix, its kind and fresh entropy",
  "The id of a newly created scoped style is `<prefix>-<entropy>` and of a global one `<prefix>-global-<entropy>`, with the prefix of the key it was created for and entropy (letters, digits, `-` and `_`) drawn anew for each created style; without random ids the entropy is a process-wide counter that never repeats. The class name, the id and the rendered class of a style are the same string.",
  ["histories", "configurations", "schedules"], "every creation, with and without the random feature, on every thread", "A test draws the counter a few times; the random/no-random configurations are not both built by the tests.",
  [ST+"manager/key.rs", ST+"utils.rs", ST+"style.rs"], [("StyleId constructors", ST+"manager/key.rs"), ("entropy", ST+"utils.rs")])
p("C15", "Failed creation leaves no trace; success registers exactly once",
  "If creating a style fails at any step (parsing the source, mounting it), the error is returned and nothing is registered or collected; on success the style returned is registered exactly once, under the key it was requested with, and carries the text rendered for that key. No error is swallowed or replaced by a default style.",
  ["fault_sequences", "histories"], "every failure point of a creation", "Host tests can never make mounting fail.",
  [ST+"manager/mod.rs", ST+"manager/registry.rs", ST+"style.rs", ST+"global_style.rs"], [("mount before register, `?`", ST+"manager/mod.rs")])
p("C16", "A style lives only in the manager it was created with",
  "Every constructor that takes a manager uses that manager for its prefix (unless one is given), its lookup, its registration and its mounting; the thread's default manager is used only by constructors that take no manager. A style's back reference, its class prefix and its registration all come from the same manager, and managers share no registry.",
  ["histories", "configurations"], "every constructor and manager", "Only a few constructors are used with a custom manager in host tests.",
  [ST+"style.rs", ST+"global_style.rs", ST+"manager/mod.rs"], [("constructor delegation", ST+"style.rs"), ("constructor delegation", ST+"global_style.rs")])
p("C17", "No manager operation can re-enter a registry or cache it has locked",
  "While a manager's registry is mutably borrowed, a style-data lock or the parse-cache lock is held, no code runs that borrows or locks the same one again, directly or through dropping a style, so no style operation panics with a double borrow or deadlocks.",
  ["schedules", "histories"], "every call path under a borrow or lock", "Tests only show the paths they execute.",
  [ST+"manager/mod.rs", ST+"manager/content.rs", ST+"manager/ssr.rs", CORE+"ast/sheet.rs"], [("RefCell<StyleRegistry>, Mutex<StyleData>, Mutex cache", ST+"manager/mod.rs")])
p("C18", "Unregistering affects only the style itself, and it unmounts exactly once",
  "Unregistering a style removes that style's own registration from its manager and nothing else: in particular it never removes a different, newer style that was registered for an equal key. A style is unmounted exactly when its last handle is gone (the registry's included), and a style never keeps its manager alive.",
  ["histories"], "every interleaving of creation, unregistration and dropping of handles", "One test unregisters a single style.",
  [ST+"manager/mod.rs", ST+"manager/registry.rs", ST+"manager/content.rs", ST+"style.rs", ST+"global_style.rs"], [("unregister", ST+"manager/registry.rs"), ("Drop", ST+"manager/content.rs"), ("weak back reference", ST+"manager/content.rs")])
p("C19", "Manager configuration is applied as given and independent per setting",
  "Each setting of a manager builder (prefix, container, append, writer) changes exactly its own setting to the value given, whatever the order of the calls, and the built manager carries them all; defaults are prefix `stylist`, appending, no writer, and the document head as container in the browser only if none was set.",
  ["configurations"], "every combination and order of settings", "Tests set at most one setting.",
  [ST+"manager/mod.rs", ST+"manager/ssr.rs"], [("builder setters and build", ST+"manager/mod.rs")])
p("C20", "A manager with a writer collects each new style once and does not mount it",
  "A style created on a manager that has a static writer is appended once, after those created before it, with its own key, id and text, to that writer's data and is not mounted; a manager without a writer mounts and collects nothing. Every created style is registered either way.",
  ["histories"], "every sequence of creations, with and without a writer", "SSR tests render one or two styles.",
  [ST+"manager/mod.rs", ST+"manager/ssr.rs"], [("style_data push", ST+"manager/mod.rs")])
p("C21", "Static markup contains every collected style once, in order, escaped",
  "Writing static markup emits, for each collected style in order, one `<style data-style=\"ID\">` element containing the style's text escaped for a style element, then `</style>`; a write error is reported immediately, and style text never reaches the markup unescaped.",
  ["inputs", "fault_sequences"], "every collection of styles and every writer failure", "SSR tests compare the markup of simple styles only.",
  [ST+"manager/ssr.rs"], [("write_static_markup", ST+"manager/ssr.rs")])
p("C22", "Hydration adopts the server's ids and text and creates nothing in the page",
  "Loading style data registers every entry under its key with exactly the id the server gave and the text a fresh render of that key with that id would have, bound to the loading manager; it mounts nothing and generates no id, and an already registered key must have the same id (otherwise it panics) and is left in place.",
  ["inputs", "histories"], "every style data and prior registry content", "The hydration tests only run in a browser, for one style.",
  [ST+"manager/mod.rs"], [("load_style_data", ST+"manager/mod.rs")])
p("C23", "Style data snapshots are isolated from the manager that keeps collecting",
  "A snapshot of the style data never changes after it was taken, although the manager goes on collecting (collecting into shared data copies it first); the reader and writer of one pair share one collection, separate pairs share nothing, and the reader is consumed by reading and neither end can be duplicated.",
  ["histories", "schedules"], "every interleaving of collecting and reading", "Tests read once at the end.",
  [ST+"manager/ssr.rs"], [("Arc::make_mut copy-on-write", ST+"manager/ssr.rs"), ("single-use handles", ST+"manager/ssr.rs")])
p("C24", "In the browser a style is one tagged element in its manager's container",
  "Mounting creates one `style` element, sets its `data-style` attribute to the style's id and its text to the style's text, and inserts it into the manager's container: at the end when appending, before the first child when not (at the end if there is none). Unmounting finds the element by the same attribute and id and removes it from its parent; failures are returned as errors.",
  ["configurations", "fault_sequences"], "append and prepend, empty and non-empty container, every failing web call", "This code is compiled for wasm32 only; the test suite here never builds it.",
  [ST+"manager/mod.rs", ST+"arch.rs"], [("mount/unmount", ST+"manager/mod.rs")])
p("C25", "In debug builds corrupted styles are detected before they take effect",
  "With debug assertions and the debug parser enabled, the rendered text of every newly created style is parsed again and a text that does not parse aborts the creation before the style is mounted, collected or registered; release builds skip only this check.",
  ["inputs", "configurations"], "every interpolated value, debug and release configuration", "Tests do not create a corrupting interpolation, and build one configuration.",
  [ST+"manager/mod.rs"], [("debug re-parse", ST+"manager/mod.rs")])
p("C26", "Literal macro arguments are all used, all present, and unique",
  "In the string-literal form of the macros, an interpolation without a matching named argument, a named argument that is not used anywhere in the sheet, a duplicate argument name, and a malformed argument list are each compile errors; no accepted invocation ignores an argument.",
  ["programs"], "every macro invocation", "The compile-fail cases of the suite cover some of them and do not run offline.",
  [MA+"literal/mod.rs", MA+"literal/to_output_with_args.rs"], [("argument loop and args_used", MA+"literal/mod.rs")])
p("C27", "Interpolated expressions are evaluated on every evaluation of the macro",
  "Code generated for a sheet is cached in a static (or emitted as a constant) only if no part of the sheet, at any depth, contains a run-time expression; whenever any fragment is dynamic, the whole sheet is rebuilt each time the macro expression is evaluated.",
  ["programs"], "every macro invocation, wherever the expression occurs", "Tests evaluate each expansion once.",
  [MA+"output/"], [("ReifyContext lattice", MA+"output/context.rs"), ("sheet emission", MA+"output/sheet.rs"), ("expression emission", MA+"output/cow_str.rs")])
p("C28", "Macro expansion preserves every node of the sheet, in order",
  "The code generated by the macros builds a sheet with exactly the blocks, rules, declarations, selectors and fragments the macro input parsed to, in the same order and in the corresponding node kinds; merging of adjacent literal fragments concatenates them in order and never merges across an expression.",
  ["programs", "inputs"], "every macro input", "Tests expand about 30 macro calls.",
  [MA+"literal/to_output_with_args.rs", MA+"output/", MA+"inline/parse/"], [("ToOutputWithArgs", MA+"literal/to_output_with_args.rs"), ("Reify", MA+"output/"), ("into_output", MA+"inline/parse/")])
p("C29", "Inline syntax errors are always reported, never silently dropped",
  "Every token of the inline form that has no place where it stands raises a diagnostic: in a declaration's value blocks and punctuation other than `- / % : , #` (also inside function arguments), in a selector braced or parenthesised blocks, literals other than strings and punctuation other than `& > + ~ | $ * = ^ # . : ,` (also inside brackets), at-rules other than `@media` and `@supports`, and a `;` in the condition of an at-rule. Every diagnostic that is raised reaches the compile errors of the expansion, and a sheet is only emitted if there is none.",
  ["programs"], "every inline macro input", "The compile-fail tests do not run offline and cover single errors.",
  [MA+"inline/mod.rs", MA+"inline/parse/"], [("IntoOutputContext errors", MA+"inline/parse/mod.rs")])
p("C30", "Inline token spacing keeps CSS meaning",
  "When tokens of the inline syntax are turned into text, a space is inserted exactly between a token that can end a compound (identifier, literal, `&`, `*`, closing delimiter) and one that starts a new one (identifier, literal, `*`, `#`); no space is inserted next to an interpolation; in the condition of an at-rule, the keywords `and`, `or` and `not` stay apart from a parenthesis after them; all tokens are emitted in order, exactly once, and identifiers keep their dashes.",
  ["inputs"], "every token sequence", "One test spaces a list of integers.",
  [MA+"inline/parse/mod.rs", MA+"spacing_iterator.rs", MA+"inline/css_ident.rs", MA+"inline/component_value/mod.rs"], [("fragment_spacing", MA+"inline/parse/mod.rs"), ("Spacing iterator", MA+"spacing_iterator.rs")])
p("C31", "Generated code does not depend on or capture names at the call site",
  "Code generated by the macros names every item it uses by an absolute path or introduces it itself out of reach of interpolated expressions (methods called on a value and primitive types aside): no user item shadows something the expansion needs, and no name the expansion brings into scope is visible to an expression the user interpolates, except the `css!` that a styled component provides on purpose.",
  ["programs"], "every call site scope and interpolated expression", "The tests call the macros in ordinary scopes only.",
  [MA+"output/", MA+"inline/parse/mod.rs", MA+"styled_component_impl.rs"], [("quoted templates", MA+"output/")])
p("C32", "Each class conversion yields the class of exactly that style",
  "Converting a style into classes yields its own class name; converting a style source creates (or finds) the style for exactly that source on the manager attached to the source, or the default manager if none is attached, and yields that style's class name, plus only the debug location when that is enabled. The use_style hook returns the style for exactly its source on the manager of its context, or the default manager if there is none. Every string source is parsed, and a parse failure is reported rather than ignored.",
  ["inputs", "configurations"], "every source kind and manager", "Yew tests convert a few sources on the default manager.",
  [ST+"yew/mod.rs", ST+"style_src.rs"], [("into_style and conversions", ST+"style_src.rs")])
p("C33", "Styled components use the manager of their context in every css! call",
  "Inside a styled component every `css!` is attached to the manager found in the component's context, or to the default manager if there is none; the component's attributes, visibility, signature and body are otherwise left unchanged, and the manager lookup happens once before the body.",
  ["programs"], "every annotated component function", "The tests render a few components.",
  [MA+"styled_component_impl.rs", MA+"styled_component.rs"], [("generated function", MA+"styled_component_impl.rs")])
p("C34", "Interpolation splitting yields the literal text and names in order",
  "Splitting a string at its interpolations yields, in order, the literal pieces unchanged, an interpolation for each `${name}` (white space around the name ignored), and the literal text `${` for each escape `$${`; a malformed interpolation is an error. Each interpolated argument is substituted where its name occurs.",
  ["inputs"], "every string", "Tests split three strings.",
  [MA+"literal/fstring.rs", MA+"literal/to_output_with_args.rs"], [("fragments", MA+"literal/fstring.rs")])
p("C35", "A global style component keeps its style registered while mounted, no longer",
  "The global style component registers its style with the manager of its context (the default one if there is none), recreates it only if the manager or the css changes, keeps a handle to it until then, and unregisters the previous style, and only that one, when it is replaced or the component is unmounted; a failure to create it is reported.",
  ["histories"], "every sequence of renders, property changes and unmounts", "Component tests need a browser and do not run here.",
  [ST+"yew/global.rs"], [("memoised guard with Drop", ST+"yew/global.rs")])
p("C36", "Media query hooks follow the query they are given, until unmounted",
  "A media query hook returns the match state of its current query: it re-evaluates when the query changes, listens to change events of the current query for as long as the component lives and stops listening when the query changes or the component unmounts. During server-side rendering and hydration the prepared hook returns the fallback.",
  ["histories"], "every sequence of query changes and media events", "The hooks need a browser; no test runs them here.",
  [ST+"yew/hooks/use_media_query.rs"], [("effect keyed by query", ST+"yew/hooks/use_media_query.rs")])
p("C37", "The manager provider provides its manager and hydrates before its children",
  "The manager provider makes exactly the manager it is given available to its children, renders all of its children, and, when hydrating, loads the server's style data into that manager before the children render; on the server it transfers the style data collected by that manager.",
  ["histories", "configurations"], "every render, with and without ssr/hydration", "Hydration tests need a browser.",
  [ST+"yew/provider.rs"], [("ContextProvider and use_transitive_state", ST+"yew/provider.rs")])
p("C38", "Every documented feature selection compiles and offers what it promises",
  "The crate type-checks with default features, with no default features, with each public feature on its own without the defaults, with combinations of them and with all of them, in debug and release builds of a user's crate and in the browser (wasm32) view of the code; a feature pulls in what the code it enables needs, and a user's program that uses what the selected features are documented to offer compiles.",
  ["configurations"], "each public feature alone, none, default and all; host and wasm32 view", "The test suite builds with all features on the host only.",
  ["packages/stylist/Cargo.toml", ST+"lib.rs", ST+"yew/mod.rs", ST+"utils.rs"], [("cfg(feature) gates", ST)])
p("C39", "A sheet is immutable once built, and sheets and errors can cross threads",
  "After construction no safe API can change a sheet that another holder can observe: sheets expose only shared access, have no interior mutability, and can be sent and shared between threads, as can parser errors on the host. Cloning a sheet yields an equal sheet.",
  ["programs", "schedules"], "every safe program", "No test can try all programs; it is a type-level fact.",
  [CORE+"ast/sheet.rs", CORE+"bow.rs", CORE+"error.rs"], [("Sheet = Arc of shared slice, Deref only", CORE+"ast/sheet.rs")])
p("C40", "Serialised style data is read back by the same field layout",
  "Everything that is serialised for hydration (style data, keys, ids, sheets and all their nodes) is deserialised with the same fields, names, order and enum tags, so that what the server wrote is what the browser reads; only the rendered text is left out, and it is always rebuilt on load.",
  ["inputs"], "every style data value", "The round trip is tested in a browser for one style only.",
  [ST+"manager/mod.rs", ST+"manager/key.rs", CORE+"ast/", CORE+"bow.rs"], [("Serialize/Deserialize implementations", CORE+"ast/")])
p("C41", "Style handles report the style they hold",
  "The id, class name and text read from a style handle are those of the very style it holds, clones of a handle denote the same style, and reading any of them changes nothing.",
  ["histories"], "every handle", "Tests read the accessors of a few styles.",
  [ST+"style.rs", ST+"global_style.rs", ST+"manager/content.rs", ST+"manager/key.rs"], [("accessors", ST+"style.rs")])
p("C42", "Thin macros build what they name from the same sheet expansion",
  "`sheet!`, `css!`, `style!`, `global_style!` and `use_style!` all expand the same sheet syntax: a leading literal selects the string form, anything else the inline form, and the result is, respectively, the sheet, a style source from it, a scoped style, a global style, and the hook applied to the style source; the whole macro input is passed on unchanged.",
  ["programs"], "every macro input", "Tests expand a few invocations of each.",
  [MA+"sheet.rs", MA+"css.rs", MA+"style.rs", MA+"global_style.rs", MA+"use_style.rs", MA+"lib.rs"], [("delegation", MA+"lib.rs")])
p("C43", "Class-name collisions are negligibly unlikely with random ids",
  "With random ids enabled, the variable part of every style's id is made of independent draws from the process's random generator, made for that id alone and worth at least 40 bits, so that two styles with the same prefix get the same class name with negligible probability only.",
  ["histories"], "every number of created styles", "Tests draw a handful of ids.",
  [ST+"utils.rs"], [("8 random alphanumerics", ST+"utils.rs")])
p("C44", "Rendering and re-parsing a parsed global sheet gives an equivalent sheet",
  "For every accepted style string, the text rendered without a class parses again, and the second sheet renders to the same text as the first.",
  ["inputs"], "every accepted string", "Tests never re-parse.",
  [CORE+"parser.rs", CORE+"ast/"], [("parser and renderer", CORE+"parser.rs")])
p("C45", "Deeply nested style sheets do not overflow the stack",
  "Parsing and rendering a style sheet nested to any depth that fits in memory completes without overflowing the stack.",
  ["inputs"], "every nesting depth", "Tests nest at most three levels.",
  [CORE+"parser.rs", CORE+"ast/"], [("recursion", CORE+"parser.rs")])
p("C46", "Parsed text cannot break out of the block it is written in",
  "In every style string that is accepted, a selector, a declaration key and a declaration value contain `{`, `}`, `;` and comment openers, and an at-rule condition contains `{`, `}` and comment openers, only inside closed comments, closed double-quoted strings and `${}` interpolations; anything else is an error. So no text of a parsed sheet ends the block, the declaration or the at-rule that confines it, or opens another, and a block written without a selector is an error.",
  ["inputs"], "every input string", "Tests parse well-formed style sheets; a typo such as `colr red; body { … }` is one of endlessly many.",
  [CORE+"parser.rs"], [("selector, at_rule_condition, style_attr_value, string, cmt", CORE+"parser.rs")])
p("C47", "Nodes of a sheet are exactly the parts they were built from",
  "Converting text, fragments, declarations, blocks, rules or lists of them into a node of a sheet keeps the whole argument, unchanged, as the only content of the node, whether it is borrowed, boxed or owned; dereferencing a sheet or a borrowed or boxed node shows exactly what it was built from; a new or default sheet is empty.",
  ["inputs"], "every argument of every conversion", "Tests build small sheets from vectors; borrowed constants come from macros only.",
  [CORE+"ast/", CORE+"bow.rs"], [("From impls of the nodes", CORE+"ast/"), ("Bow", CORE+"bow.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
