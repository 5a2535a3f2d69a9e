#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, **({"state": state} if state else {}),
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
RES = "Resolver::resolve"
LSE = "Resolver::load_side_effects"

p("C01", "A request splits losslessly into target, query and fragment",
  "A request is split into a target, a query and a fragment whose concatenation is exactly the request: the fragment starts at the first '#' that is not the very first character of the request, the query starts at the first '?' before that, and everything earlier is the target. A file found without going through an exports or imports map is returned with exactly that query and that fragment, also after alias, browser or tsconfig rewriting and after main-field or extension lookup, and only the target decides which file it is.",
  ["inputs"], "every request string (any Unicode, any number of '#' and '?', empty), every route to a file except exports and imports maps",
  "The tests sample about fifteen strings for the split and check query and fragment on a handful of routes; the claim is over all strings and all combinations of rewriting steps.",
  ["src/parse.rs", "src/lib.rs", "src/plugin/alias.rs", "src/tsconfig_path.rs"],
  [("character state machine", "src/parse.rs Request::parse_identifier"), ("target replaced, query and fragment kept", "src/parse.rs Request::with_target")],
  [RES + " -> ResolveInfo.request"])
p("C02", "The form of a request decides where it is looked up",
  "Without any rewriting option, a request that is empty, '.', '..', or starts with './', '../', '/' or a drive prefix (letter, ':' and then '/', '\\' or nothing more) is looked up only at that path taken against the base directory and never in a node_modules directory. Any other request is looked up only through package lookup (node_modules, or the imports map for a leading '#') and never as a path relative to the base directory.",
  ["inputs"], "every request string and every directory layout",
  "The tests call the classifier on a dozen strings; a misclassified form shows only for particular strings combined with a layout in which both lookups could succeed.",
  ["src/kind.rs", "src/lib.rs", "src/resolve.rs"],
  [("request classification", "src/kind.rs Resolver::get_target_kind"), ("dispatch on the kind", "src/lib.rs Resolver::_resolve")],
  [RES])
p("C03", "Lexical path normalisation is exact",
  "Normalising a path without following links removes every '.' component, lets every '..' remove the nearest preceding remaining name (or nothing when there is none), and keeps all other components and the root in order. The result therefore never contains '.' or '..' components, is absolute exactly when the input is, and normalising it again changes nothing.",
  ["inputs"], "every path string",
  "No test targets it; the few integration paths have at most one '..'.",
  ["src/normalize.rs"],
  [("fold over components", "src/normalize.rs Resolver::normalize_path_without_link")],
  ["Resolver::normalize_path_without_link", RES + " with symlinks off"])
p("C04", "A successful resolution names an existing regular file",
  "Whenever resolution succeeds with a path, some candidate naming an existing regular file was found and the returned path is that candidate's real path when symlink resolution is on, and its lexical normal form when it is off; the remaining target of the returned request is empty. A directory, a missing path or a path with '.' or '..' components is never returned.",
  ["inputs", "configurations"], "every request, base directory, option set and directory layout (file system unchanged during the call, Unicode paths)",
  "The tests check some hundred request/fixture pairs; that no route through alias, maps, main fields, extensions and walks can bypass the file check is a claim over all routes.",
  ["src/resolve.rs", "src/plugin/extensions.rs", "src/normalize.rs", "src/lib.rs"],
  [("regular-file test before success", "src/resolve.rs Resolver::resolve_as_file, src/plugin/extensions.rs"), ("final normalisation", "src/normalize.rs Resolver::normalize_result")],
  [RES + " -> ResolveInfo.path, ResolveInfo.request.target"])
p("C05", "File candidates are tried in the configured order",
  "Looking up a path as a file tries the path itself and then the path with each configured extension appended, in the configured order, and takes the first that is a regular file; only if none is one is the path looked up as a directory. When an extension is enforced the bare path itself is not a candidate.",
  ["inputs", "configurations"], "every path, every extension list (including empty strings, duplicates and multi-dot extensions), every subset of candidates existing as file or directory",
  "Tests use a few extension lists with at most two competing candidates.",
  ["src/resolve.rs", "src/plugin/extensions.rs"],
  [("exact candidate, enforce_extension", "src/resolve.rs Resolver::resolve_as_file"), ("extension loop", "src/plugin/extensions.rs ExtensionsPlugin::apply")],
  [RES])
p("C06", "A directory resolves to its main fields, then its main files",
  "A directory resolves through the main fields of its own package description in the configured order, each value looked up as a file and then as a directory relative to that directory, and then through the configured main files in order; the first that succeeds wins, and if none does the lookup fails. A value '.' or './' ends the main-field stage, a field that is missing or not a string is skipped, and a candidate that fails has no influence on how the following ones are looked up.",
  ["inputs", "configurations"], "every directory content, list of main fields and main files",
  "Fixtures have one or two main fields which mostly succeed at the first try; what failing candidates leave behind is not sampled.",
  ["src/resolve.rs", "src/plugin/main_field.rs", "src/plugin/main_file.rs"],
  [("directory lookup", "src/resolve.rs Resolver::resolve_as_dir"), ("main fields loop", "src/plugin/main_field.rs MainFieldPlugin::apply"), ("main files loop", "src/plugin/main_file.rs MainFilePlugin::apply")],
  [RES])
p("C07", "Packages are searched in node_modules, nearest directory first",
  "A bare request is looked up in the node_modules directory of the base directory and then of each of its ancestors, nearest first; the first level that yields a file wins, and a level where the package or the requested file is merely absent is passed over. A level whose lookup fails for another reason (subpath denied by the package's exports, unreadable or malformed description file) ends the search with that reason. The package name is the first segment of the request, or the first two for a request starting with '@'.",
  ["inputs"], "every bare request (Unicode, scoped or not, with or without subpath), base directory depth and arrangement of node_modules directories",
  "Fixtures have at most two levels; priority, continuation and abort behaviour depend on the whole chain of ancestors.",
  ["src/resolve.rs"],
  [("upward walk and error triage", "src/resolve.rs Resolver::resolve_as_modules")],
  [RES])
p("C08", "Aliases rewrite matching requests in order, with fallback",
  "For a base directory that neither is nor lies inside a directory called node_modules, the configured aliases are tried in order on every request that starts with the alias key: the prefix is replaced once by the alias target and the rewritten request is resolved from the same directory, and the first rewriting that succeeds is the answer. A request that already starts with the alias target is not rewritten by it, an ignoring alias answers 'ignored', and when no alias succeeds the request is resolved as if it had no alias.",
  ["inputs", "configurations"], "every request and alias list whose rewritings do not lead back to a request already being rewritten",
  "Tests exercise single aliases and a few ordered pairs; fallback and ordering interact with everything the rewritten request can do.",
  ["src/plugin/alias.rs", "src/lib.rs"],
  [("alias loop", "src/plugin/alias.rs AliasPlugin::apply")], [RES])
p("C09", "prefer_relative tries the relative form first, then falls back",
  "With prefer_relative set, a request that does not start with './' or '../' is first resolved as if './' had been put in front of it, and only if that fails is it resolved in its original form from the same directory. With it unset, or for requests that start with './' or '../', the option has no effect.",
  ["inputs", "configurations"], "every request and layout",
  "One fixture covers it.", ["src/plugin/prefer_relative.rs", "src/lib.rs"],
  [("prefer relative", "src/plugin/prefer_relative.rs PreferRelativePlugin::apply")], [RES])
p("C10", "Conditions are selected in definition order with nested fallback",
  "Within a conditional exports or imports value the conditions are examined in the order they are written: the first one that is enabled (or 'default') is taken, except that a nested conditional in which nothing applies is left and the examination goes on with the next sibling; the taken value may itself hold no target (null or an empty list), and if nothing applies there is no target. A 'default' that is reached but is not last is an error; the order in which the enabled conditions were configured never matters.",
  ["inputs", "configurations"], "every nesting of conditionals and every set of enabled conditions",
  "Tests list some examples with nesting up to three; the backtracking search must be right for every tree.",
  ["src/map.rs"], [("backtracking search", "src/map.rs conditional_mapping")], [RES + " on packages with exports/imports"])
p("C11", "The best matching key of an exports or imports map is used",
  "An exact key of an exports or imports map always wins; otherwise, among the directory keys (ending in '/') and pattern keys (ending in '*') whose prefix the request starts with, the one with the longest prefix is used, a pattern winning over a directory key of the same prefix. The choice does not depend on the order of the keys, and a request no key matches has no target.",
  ["inputs"], "every set of keys (any depth, Unicode, overlapping) and every request",
  "Tests sample a few maps; the tree walk mixes exact, directory and pattern matches at each level, so mistakes show for particular overlaps only.",
  ["src/map.rs"], [("path tree construction", "src/map.rs PathTreeNode::walk"), ("path tree search", "src/map.rs PathTreeNode::find_match")],
  [RES + " on packages with exports/imports"])
p("C12", "Map targets are the written target with the matched part substituted",
  "The target of an exact key is used as written; a pattern key replaces every '*' of its target by the part of the request that '*' matched, character for character, and a directory key appends the rest of the request to its target, which has to end in '/'. An array contributes the targets of its usable entries in order, an entry without applicable condition contributing none, and a target of the wrong shape (an exports target that is not './'-relative or bare, a directory target under an exact or pattern key or the reverse) makes the resolution fail instead of being used.",
  ["inputs"], "every map value and matched remainder ('$', '*', Unicode, empty)",
  "Tests sample ASCII remainders.", ["src/map.rs"],
  [("substitution", "src/map.rs Field::target_mapping, Field::mapping"), ("shape check", "src/map.rs assert_target")],
  [RES + " on packages with exports/imports"])
p("C13", "Map targets never leave the package directory",
  "A relative or absolute target taken from an exports or imports map, after substitution of the request's remainder, is never used if it is absolute or if at some point it has more '..' segments than ordinary names before that point. Such a target is passed over or makes the resolution fail, whatever mixture of '.', '..' and empty segments it or the request contains.",
  ["inputs"], "every target and every request remainder",
  "Nine strings are sampled by the unit test, none of them through a substituted remainder.",
  ["src/map.rs", "src/plugin/exports_field.rs", "src/plugin/imports_field.rs"],
  [("segment counting", "src/map.rs Field::check_target"), ("check before use", "src/plugin/exports_field.rs, src/plugin/imports_field.rs")],
  [RES + " on packages with exports/imports"])
p("C14", "A package's exports map is the only way into it",
  "A bare request into an installed package that defines exports resolves (extension not enforced, browser field off) only to the first contained target of its map that is an existing file; when there is none the request fails, without falling back to main fields, main files, extensions, directories or outer node_modules. The description used is that of the package's root directory: neither a nested description file nor that of an enclosing package takes its place; only a package (with a node_modules directory, in which the name is not installed) that requests its own exact name or a subpath of it is answered from its own map, and a name that merely begins with the package's name is not its own.",
  ["inputs"], "every package description with exports, every subpath, query and fragment",
  "Fixtures cover some maps; that no other route reaches into the package is a claim over all layouts.",
  ["src/plugin/exports_field.rs", "src/resolve.rs"],
  [("exports lookup", "src/plugin/exports_field.rs ExportsFieldPlugin::apply"), ("self reference", "src/plugin/exports_field.rs ExportsFieldPlugin::is_resolve_self")],
  [RES])
p("C15", "'#' requests use only the imports map of the nearest package",
  "A request starting with '#' is mapped by the imports map of the nearest description file above the base directory, to the first target of the matching key: a relative target has to be an existing file within the package and a bare target is looked up as a package from that package's directory. If that map has no match or the target does not exist, the resolution fails; the maps of other packages are not consulted for it.",
  ["inputs"], "every imports map (without '#' targets that lead back to themselves), request and package arrangement",
  "Few fixtures use imports, with one package each.", ["src/plugin/imports_field.rs", "src/description.rs"],
  [("imports lookup", "src/plugin/imports_field.rs ImportsFieldPlugin::apply")], [RES])
p("C16", "The browser field replaces or ignores exactly what it names",
  "With the browser field enabled, a request is compared with the entries of the governing package's browser map in the order they are written: a bare request with the key itself, any other request by its path (also with a configured extension appended) with the key's path in the package. The first equal entry replaces the target, following replacements that are themselves keys at most once per entry and even around a cycle, and resolves it from the package directory, or answers 'ignored' for false; with the option off, or without equal entry, nothing changes.",
  ["inputs", "configurations"], "every browser map (chains, cycles, non-string values) and request",
  "Fixtures have a handful of entries without competition, cycles or long chains.",
  ["src/plugin/alias_field.rs", "src/description.rs"],
  [("browser lookup", "src/plugin/alias_field.rs AliasFieldPlugin::apply, deal_with_alias_fields_recursive")], [RES])
p("C17", "The nearest description file governs a path",
  "The description file that governs a path is the one in the nearest directory, among the path itself if it is a directory and its ancestors, that contains a regular file of the configured name; there is none exactly if no such directory has one. With no description file name configured there is never one.",
  ["inputs", "configurations"], "every path, existing or not, and every arrangement of description files among its ancestors",
  "Tests look at two or three levels.", ["src/description.rs", "src/utils.rs"],
  [("upward search", "src/description.rs Resolver::load_pkg_file, src/utils.rs Resolver::find_up")], [LSE, RES])
p("C18", "Caching never changes a result",
  "As long as the files do not change, the result of every resolution and of every side-effects query is the same as that of a fresh resolver with the same options: it does not depend on what this resolver resolved before, on which thread, or on what other resolvers sharing its cache (with the same description file name) resolved before or at the same time. In particular packages with textually equal or similar descriptions never receive each other's maps, directory or metadata.",
  ["histories", "schedules", "configurations"], "every history and interleaving of calls on resolvers sharing a cache",
  "Two tests count cache entries; they never compare a warmed-up resolver with a fresh one.",
  ["src/description.rs", "src/cache.rs", "src/fs.rs"],
  [("validity of every cached entry", "src/description.rs load_pkg_file, parse_description_file")],
  [RES, LSE], [{"name": "ResolverCache", "meaning": "directory -> description, map content -> parsed map", "where": "src/cache.rs"}])
p("C19", "Side effects are reported from the governing description",
  "A side-effects query on a path returns the location of the governing description file together with its sideEffects value: a boolean, the list of strings in order, or none if the key is absent. Any other sideEffects value, an unreadable or malformed description file and a malformed exports or imports map is reported as an error, and a path without governing description file yields nothing.",
  ["inputs"], "every description file content and path",
  "Three fixture values are sampled.", ["src/description.rs"],
  [("extraction", "src/description.rs Resolver::parse_description_file, Resolver::load_side_effects")], [LSE])
p("C20", "tsconfig paths choose the most specific pattern and fall back in order",
  "With a tsconfig that sets baseUrl, a request that equals a pattern, or that has at least one character between the pattern's prefix and suffix around its '*', is resolved to each of the pattern's paths in order, taken against baseUrl with every '*' replaced by the matched part; patterns without '*' are tried before others and longer prefixes before shorter ones. The first path that resolves is the answer, with the request's query and fragment; if none does, or nothing matches, the request is resolved normally.",
  ["inputs", "configurations"], "every paths table and request (overlapping patterns, Unicode, requests shorter than pattern)",
  "The table comes from an unordered map: tests with a single matching pattern cannot see an order.",
  ["src/tsconfig_path.rs"],
  [("ordering", "src/tsconfig_path.rs get_absolute_mapping_entries, compare_pattern"), ("matching", "src/tsconfig_path.rs match_star"), ("lookup", "src/tsconfig_path.rs _resolve_with_tsconfig")], [RES + " with options.tsconfig"])
p("C21", "tsconfig 'extends' only fills in what the extending file leaves open",
  "A tsconfig with 'extends' behaves like the file in which every value that is absent or null is taken from the extended file (itself merged with what it extends), objects being combined key by key at every depth and all other values of the extending file kept as they are. An 'extends' that resolves to no file is ignored; a tsconfig, extended or not, that cannot be read or parsed, and a paths table that is not an object of lists of strings, fail the resolution with an error.",
  ["inputs"], "every chain of tsconfig files without cycle",
  "One fixture chain is sampled.", ["src/tsconfig.rs"],
  [("merge", "src/tsconfig.rs merge, parse_file_to_value"), ("typed extraction", "src/tsconfig.rs TsConfig::parse_file")], [RES + " with options.tsconfig"])
p("C22", "No input makes the resolver panic",
  "Resolving any request from any base directory with any options, and querying side effects for any path, returns a result or an error and never panics: no slice out of bounds or inside a character, no arithmetic overflow, no missing value taken for present, no state taken for impossible that is not. This includes arbitrary JSON in description files and tsconfig files.",
  ["inputs", "configurations"], "every request string, file content and option set",
  "Tests use well-formed ASCII inputs.", ["src/lib.rs", "src/map.rs", "src/resolve.rs", "src/description.rs", "src/tsconfig.rs", "src/tsconfig_path.rs", "src/parse.rs", "src/kind.rs"],
  [("slicing, unwrap and unreachable sites", "all of src")], [RES, LSE])
p("C23", "A failed resolution reports the request and where it was made",
  "When nothing is found, the error reads \"Resolve '<request>' failed in '<directory>'\" with the original request, including query and fragment, and the directory it was made from; more specific reasons are reported as they are. An internal marker is never reported, and no failure is turned into a success or 'ignored'.",
  ["inputs", "configurations"], "every failing resolution",
  "Tests mostly check only that an error occurred.", ["src/lib.rs", "src/utils.rs", "src/description.rs"],
  [("marker replaced by message", "src/lib.rs Resolver::_resolve")], [RES, LSE])
p("C24", "Options are taken as given, and extension enforcement is derived",
  "A new resolver uses exactly the given options; only when extension enforcement is not specified it is set, to true exactly if one of the extensions is the empty string. A given external cache is the cache used, so what one resolver reads is available to the others.",
  ["configurations"], "every option set",
  "Tests construct a few option sets.", ["src/lib.rs", "src/options.rs"],
  [("construction", "src/lib.rs Resolver::new")], ["Resolver::new -> options", RES])
p("C25", "An edited description file is read again",
  "As long as a description file exists, a resolver reuses the cached description only while the modification time of the file is not earlier and less than one second later than when this resolver last read it; otherwise the next resolution or query that needs it reads the file again and uses the new content, or reports that it is unreadable.",
  ["histories"], "every sequence of edits of a description file and resolutions",
  "One test rewrites one file once.", ["src/fs.rs", "src/description.rs"],
  [("modification time check", "src/fs.rs CacheFile::need_update"), ("reload", "src/description.rs Resolver::load_pkg_file")], [RES, LSE])
p("C26", "Every search with a finite space ends",
  "Finding the governing description file, walking up the node_modules directories, evaluating an exports or imports map, following a chain in the browser field and splitting or normalising a request or path always end, whatever the files, paths and maps contain.",
  ["inputs"], "every input, including cyclic browser maps, relative and missing paths and deeply nested conditionals",
  "A test that does not hang says nothing about the next input.", ["src/description.rs", "src/utils.rs", "src/map.rs", "src/plugin/alias_field.rs", "src/resolve.rs"],
  [("loop and recursion measures", "src/description.rs load_pkg_file, src/utils.rs find_up, src/map.rs conditional_mapping, src/plugin/alias_field.rs")], [RES, LSE])
p("C27", "Every resolution ends",
  "Resolving any request with any options and any files comes to an end with a result or an error.",
  ["inputs", "configurations"], "every request, option set and file content",
  "A test that does not hang says nothing about the next input.", ["src/lib.rs", "src/plugin/alias.rs", "src/plugin/imports_field.rs", "src/tsconfig.rs"],
  [("recursion through rewriting", "src/plugin/alias.rs, src/plugin/imports_field.rs, src/tsconfig.rs")], [RES])
p("C28", "The built-in module test knows exactly Node's modules",
  "is_build_in_module answers true exactly for the names of the modules built into Node.js 16, as its module.builtinModules lists them: _http_agent, _http_client, _http_common, _http_incoming, _http_outgoing, _http_server, _stream_duplex, _stream_passthrough, _stream_readable, _stream_transform, _stream_wrap, _stream_writable, _tls_common, _tls_wrap, assert, assert/strict, async_hooks, buffer, child_process, cluster, console, constants, crypto, dgram, diagnostics_channel, dns, dns/promises, domain, events, fs, fs/promises, http, http2, https, inspector, module, net, os, path, path/posix, path/win32, perf_hooks, process, punycode, querystring, readline, repl, stream, stream/consumers, stream/promises, stream/web, string_decoder, sys, timers, timers/promises, tls, trace_events, tty, url, util, util/types, v8, vm, wasi, worker_threads, zlib. Names are compared letter by letter: any other text, such as another letter case, a 'node:' prefix, a trailing slash or an unlisted subpath, is not built in.",
  ["inputs"], "every text",
  "The test asks for one name of the list and one other.", ["src/kind.rs"],
  [("list and lookup", "src/kind.rs Resolver::is_build_in_module")], ["Resolver::is_build_in_module(target) -> bool"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
