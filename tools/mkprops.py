#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Combining providers follows the conflict table at every key",
  "For every sequence of join, adjoin, merge and admerge operations over any providers, the value found at each key path is exactly what results from applying the documented table one operation after another: dictionaries are unioned recursively, join/adjoin keep the existing value and merge/admerge take the incoming one on a conflict, and adjoin/admerge concatenate arrays, existing elements first. No key or array element is lost, duplicated or invented, and combining with an empty provider changes nothing.",
  ["histories", "inputs"], "all operation sequences of any length, all data trees (nesting, type mismatches between levels, arrays of dictionaries, empty collections), all provider kinds",
  "Tests cover a handful of two-provider combinations with fixed shallow data; they do not reach type conflicts at inner levels, arrays under every strategy, or long mixed sequences.",
  ["src/coalesce.rs", "src/figment.rs"],
  [("recursive combination", "src/coalesce.rs Coalescible for Value / Map"), ("provider application", "src/figment.rs Figment::provide")],
  observe_at=[{"name": "find_value / extract", "where": "src/figment.rs"}] if False else [])
p("C02", "Profiles layer as default, then selected, then global, ignoring case",
  "Whatever providers were combined, extraction sees the default profile's data overlaid by the selected custom profile's data, overlaid by the global profile's data, each overlay merging dictionaries recursively and replacing everything else, and data of any other profile is never visible. Profile names are compared without regard to ASCII case everywhere; the selected profile is the last one selected, or set by a merged/admerged provider that carries one, never by a joined/adjoined one. The enumeration of profiles is exactly the set of profiles some provider supplied data for.",
  ["histories", "inputs"], "all histories of operations and selections, all sets of profile names and case variants, all data trees per profile",
  "Tests check a few fixed profile names and one or two layers; they do not vary case, the position of select in the history, or conflicts among all three layers.",
  ["src/figment.rs", "src/profile.rs", "src/coalesce.rs"],
  [("layering", "src/figment.rs Figment::merged"), ("profile adoption", "src/coalesce.rs Coalescible for Profile"), ("case-insensitive names", "src/profile.rs")])
p("C03", "Every value is attributed to the provider and profile that supplied it",
  "For every value in a combined figment, its tag resolves to the metadata of the provider that actually supplied that value and to the profile it was supplied for, including elements of concatenated arrays, values that came through figments used as providers at any depth, and values seen after focusing, cloning or selecting. A dictionary that combines several providers is attributed to one of them, and no value is attributed to a provider whose data was overridden there.",
  ["histories", "inputs"], "all histories including nested figments and array concatenation, all data trees, every value reachable by any path",
  "Tests look at the metadata of single top-level keys with at most three providers; attribution per leaf over arbitrary histories is not explored.",
  ["src/value/tag.rs", "src/value/value.rs", "src/figment.rs", "src/coalesce.rs"],
  [("tag assignment", "src/figment.rs Figment::provide"), ("tag rewriting", "src/value/value.rs Value::map_tag"), ("metadata lookup", "src/figment.rs find_metadata / get_metadata")])
p("C04", "Extraction errors name the offending key, provider and profile",
  "When extraction of a value fails because a configured value has the wrong type, an invalid value or an unknown variant or field, the reported error carries the full key path from the extraction root to the offending value (dictionary keys and array indices, in order, with the requested key prefix for keyed extraction), the metadata of the provider that supplied that value, and the profile it came from. A missing required value reports the missing field's name, and a lookup of an absent key reports exactly the requested path.",
  ["histories", "inputs"], "all target types, all nestings of dictionaries and arrays, all positions of the faulty value, all histories that put it there, keyed and whole extraction, strict and lossy",
  "Tests check a few fixed error messages for one flat struct; no test quantifies over the position of the fault, nested keyed extraction or the provider history.",
  ["src/error.rs", "src/value/de.rs", "src/figment.rs"],
  [("path building", "src/value/de.rs MapDe / SeqDe"), ("keyed extraction", "src/figment.rs extract_inner"), ("resolution", "src/error.rs Error::resolved")])
p("C05", "Provider failures are all reported and never masked",
  "If any provider in a history fails, every extraction and lookup afterwards fails no matter which providers are added before or after, whatever strategy was used and whether the failure came through a nested figment. The resulting error contains each provider failure exactly once, attributed to the metadata of the provider that failed, and containment queries answer false and profile enumeration is empty.",
  ["histories", "fault_sequences"], "all histories in which any subset of providers fails, all failure positions, all strategies, nested figments",
  "Tests exercise one or two failing providers at fixed positions; combinations of three or more failures or failures inside nested figments are not reached.",
  ["src/figment.rs", "src/error.rs"],
  [("error accumulation", "src/figment.rs Figment::provide"), ("chaining", "src/error.rs Error::chain")])
p("C06", "All lookup interfaces agree on which value a key path denotes",
  "For every figment and every dotted key path, existence queries, value lookup, metadata lookup, keyed extraction (strict and lossy) and navigation of the whole extracted value all agree: they succeed for exactly the same paths and yield the same value. Owned and borrowing lookups on a value agree, and looking up a path in a value nested under that path returns the value.",
  ["inputs", "histories"], "all figments, all paths including absent ones, paths through non-dictionaries, empty paths and unicode keys",
  "Tests query a few existing paths through one interface at a time and do not compare the interfaces or probe absent and partial paths.",
  ["src/figment.rs", "src/value/value.rs", "src/util.rs"],
  [("path navigation", "src/value/value.rs Value::find / find_ref"), ("lookup", "src/figment.rs find_value / contains / find_metadata / extract_inner"), ("nesting", "src/util.rs nest")])
p("C07", "Focusing on a key is equivalent to prefixing every lookup with it",
  "For every figment, key and sub-key, looking up the sub-key in the figment focused on the key gives the same value, attribution and profile behaviour as looking up key.sub-key in the original, and focusing successively equals focusing on the joined key. The selected profile, per-profile data and metadata are preserved, and focusing does not change the original.",
  ["inputs", "histories"], "all figments with data in several profiles, all keys and sub-keys at any depth, present or absent",
  "Tests focus one fixed configuration; they do not quantify over profile layering under the focused key or chained focusing.",
  ["src/figment.rs"], [("focus", "src/figment.rs Figment::focus")])
p("C08", "Serializable data survives a round trip through a figment unchanged",
  "For any data expressible with the supported serde data model (structs, enums of every variant shape, options, tuples, sequences, maps with string keys, all primitive types, units, newtypes), providing it in serialized form, optionally under a key and in any profile, and extracting it as the same type gives back an equal value. Serializing to and deserializing from a plain value does the same, keys land exactly where requested, and data that is not a map, or maps with unsupported keys, are rejected with an error rather than altered.",
  ["inputs", "programs"], "all types built from the supported data model to any depth and all their values, all keys and profiles",
  "Tests round-trip a few fixed structs; nested combinations of enum shapes, options, tuples and extreme values are not generated.",
  ["src/value/ser.rs", "src/value/de.rs", "src/providers/serialized.rs", "src/util.rs"],
  [("serializer", "src/value/ser.rs"), ("deserializers", "src/value/de.rs"), ("keyed serialization", "src/providers/serialized.rs")])
p("C09", "Extracted numbers are exact or rejected, never silently changed",
  "Extracting a configured integer as any integer type yields exactly that integer when it is representable in the type and an error otherwise; it is never wrapped, truncated or sign-changed, for every source and target width including 128-bit and pointer-sized ones. Floating-point values extract as the same floating-point value, integers extract as the nearest float, and floats or strings never turn into integers in strict extraction.",
  ["inputs"], "all numeric values of every width, all numeric target types, whole and keyed extraction, plain values and figments",
  "Tests use small integers; boundary values across the full matrix of source and target widths are not covered.",
  ["src/value/de.rs", "src/value/value.rs"],
  [("numeric dispatch", "src/value/de.rs Deserializer for Num"), ("configured deserializer", "src/value/de.rs ConfiguredValueDe")])
p("C10", "Lossy extraction converts exactly the documented textual forms",
  "Lossy extraction into a boolean or number accepts exactly the documented conversions: the strings true/yes/1/on and false/no/0/off in any case and the integers 1 and 0 become booleans, and strings holding a number become that number exactly, wherever they occur in the extracted structure. Everything strict extraction accepts, lossy extraction accepts with the same result, and any other value stays an error.",
  ["inputs"], "all strings and values, all boolean and numeric targets, at any nesting depth, whole and keyed extraction",
  "Tests try a dozen literal strings; precision of float strings, boundary integers, padding, case mixes and nested positions are not covered.",
  ["src/value/de.rs", "src/value/value.rs", "src/figment.rs"],
  [("boolean conversion", "src/value/value.rs Value::to_bool_lossy"), ("number conversion", "src/value/value.rs Value::to_num_lossy / Num::from_str"), ("interpreter", "src/value/de.rs LossyInterpreter")])
p("C11", "Environment value syntax parses to the documented structure, never failing",
  "Parsing any string as a configuration value never fails or panics: strings that follow the documented grammar (booleans, integers, floats, quoted strings with escapes, quoted characters, bracketed arrays, braced dictionaries, surrounding whitespace ignored) produce exactly the described value, and every other string produces that string itself, trimmed. Rendering any value tree in the grammar and parsing it gives the same tree back.",
  ["inputs"], "all Unicode strings, well-formed and malformed, all nestings of arrays and dictionaries, all escapes, whitespace anywhere it is allowed",
  "Tests list about fifty literal strings; combinations of multi-byte text with escapes, nested separators and near-miss syntax are not explored.",
  ["src/value/parse.rs", "src/value/escape.rs"],
  [("parser", "src/value/parse.rs Parser"), ("escapes", "src/value/escape.rs escape")])
p("C12", "Environment variables map to keys exactly as the configured pipeline says",
  "For every process environment and every pipeline of prefix, filter, map, filter-map, split, only, ignore, lowercase and profile settings, the environment provider yields exactly the variables whose trimmed name passes the pipeline, under the key the pipeline computes (case-insensitive matching, lowercased unless disabled, nested at dots, names with empty components dropped), with the parsed value, in the configured profile. Single-variable lookups are case-insensitive and trim, and unset names give the default.",
  ["inputs", "configurations"], "all environments (odd names, whitespace, mixed case, non-Unicode, empty values) and all orders and repetitions of pipeline stages",
  "Tests use a few variables and fixed pipelines; interaction of stage order, casing, trimming and nesting over arbitrary environments is not tested.",
  ["src/providers/env.rs", "src/util.rs", "src/profile.rs"],
  [("pipeline", "src/providers/env.rs Env::chain / filter_map"), ("iteration", "src/providers/env.rs Env::iter"), ("collection", "src/providers/env.rs Provider::data")])
p("C13", "TOML, JSON and YAML sources yield exactly the data they contain",
  "For every data tree expressible in TOML, JSON or YAML, a source in that format, from a string or a file, provides exactly that tree: every key, string, number, boolean, array and table, under the configured profile, or under each top-level table's name as profile when the source is nested. Equivalent documents in the three formats are indistinguishable once provided, and malformed documents make extraction fail with an error attributed to that source.",
  ["inputs", "configurations"], "all documents of the three formats within the shared data model, nested and unnested, every profile, string and file sources, well-formed and malformed",
  "Tests parse small fixed documents per format; numeric extremes, unicode, key quoting, nesting and corruption are not varied.",
  ["src/providers/data.rs", "src/value/de.rs"],
  [("format providers", "src/providers/data.rs Data / Format"), ("value construction", "src/value/de.rs ValueVisitor")])
p("C14", "File sources resolve to the nearest existing file and report what they read",
  "A relative file path resolves to the existing regular file in the nearest directory among the current one and its ancestors when searching is on, only against the current directory when it is off, and absolute paths only to themselves; directories of that name are never taken for the file. A missing file provides nothing unless it is required, in which case extraction fails naming it; files are read when provided, and the metadata reports the path that was actually read.",
  ["inputs", "configurations", "histories"], "all directory trees, current directories, relative and absolute paths, option combinations in any order, and file system changes after providing",
  "Tests place one file at one or two levels; decoy directories, symlinks, option order and multi-level candidates are not enumerated.",
  ["src/providers/data.rs"], [("resolution", "src/providers/data.rs Data::resolve"), ("metadata", "src/providers/data.rs Provider for Data")])
p("C15", "Extended YAML merge keys expand by the merge rules and alter nothing else",
  "For every YAML document, the extended YAML provider yields the document with each merge key expanded: a mapping that merges others contains their keys with its own keys taking precedence and earlier merged mappings winning over later ones, at every depth. Documents without merge keys yield the same data as the plain YAML provider, and an ill-formed merge is an error, never partial data.",
  ["inputs"], "all YAML documents with anchors, aliases and merge keys of single mappings or sequences of mappings at any depth",
  "Tests use one or two literal documents with a single merge level.",
  ["src/providers/data.rs"], [("merge expansion", "src/providers/data.rs YamlExtended::from_str")])
p("C16", "Relative paths resolve against the file that declared them",
  "A path extracted as a relative-path value keeps its original text exactly, and its relative form is the path itself if absolute, the declaring file's directory joined with it if it came from a file, and the unchanged path otherwise, at any nesting depth, in arrays, and through any combination of providers. Re-serializing such a value and extracting it again through another figment keeps the original declaring file, and the relative-serialization variants write exactly the original or resolved path.",
  ["inputs", "histories"], "all paths (absolute, relative, dotted, unicode), declaring files in any directory, any overriding history, repeated re-serialization",
  "Tests use one or two files and fixed paths; attribution under overriding, arrays and repeated round trips is not explored.",
  ["src/value/magic.rs", "src/util.rs"], [("relative paths", "src/value/magic.rs RelativePathBuf"), ("declaring file", "src/metadata.rs Source::file_path")])
p("C17", "Magic wrapper types are transparent and carry the right tag",
  "Extracting a type wrapped so that it carries its tag gives the same inner value as extracting it unwrapped and a tag that resolves to the providing source and profile, at any depth; wrappers that were serialized and provided again keep their original tag. Extracting untyped values gives back the data with each value's own tag, and an either-type yields its left alternative whenever that deserializes and otherwise its right one, failing only when both do.",
  ["inputs", "histories"], "all inner values and types, all nestings (sequences, maps, options, structs), all provider histories and repeated round trips",
  "Tests check one struct with two fields; deep nesting, arrays with mixed providers and repeated round trips are not covered.",
  ["src/value/magic.rs", "src/value/de.rs", "src/value/tag.rs"],
  [("tagged values", "src/value/magic.rs Tagged"), ("either", "src/value/magic.rs Either"), ("raw values", "src/value/de.rs Value::deserialize_from")])
p("C18", "A jail restores environment and directory on every exit and excludes others",
  "After a jail ends, whether normally, with an error or with a panic, every environment variable it set or cleared has exactly its earlier value again (or is absent if it was), the current directory is the earlier one, and the jail's directory with everything in it is gone, no matter what sequence of variable, file and directory operations was made through the jail. While one jail is running no other jail runs in any thread, and a failing or panicking jail never prevents later jails from running.",
  ["histories", "schedules", "fault_sequences"], "all sequences of jail operations, all exit kinds at any point, all interleavings of several threads entering jails",
  "Tests restore one or two variables on normal and panicking exits; arbitrary sequences (clear, overwrite, set again) and concurrent entry are not explored.",
  ["src/jail.rs"], [("restoration", "src/jail.rs Drop for Jail"), ("exclusion", "src/jail.rs try_with lock")])
p("C19", "Jail file operations never touch anything outside the jail directory",
  "Creating files or directories and changing directory through a jail only ever affects paths inside the jail's directory: an absolute path elsewhere is refused with an error, and a path with parent components is either refused or kept inside, whatever directory inside the jail is current, with nothing outside created, changed or entered. Plain paths inside the jail are accepted, and an accepted file holds exactly the given bytes while an accepted directory exists with all its parents.",
  ["inputs", "histories"], "all path strings with parent and current-directory components, absolute prefixes and repeated separators, all operation sequences, from any directory inside the jail",
  "Tests try a few literal escaping paths; combinations of traversal and nested directories after changing directory are not enumerated.",
  ["src/jail.rs"], [("containment", "src/jail.rs safe_jailed_path"), ("file operations", "src/jail.rs create_file / create_binary / create_dir / change_dir")])
p("C20", "Attribution and results are independent of concurrent figment use",
  "When any number of threads build, combine, clone and extract figments at the same time, every figment yields the same values, attribution and errors as when built alone, and combining figments built on different threads attributes every value to its own provider. Tags handed out to different providers never collide.",
  ["schedules", "histories"], "all interleavings of concurrent construction, sharing, combination and extraction on many threads",
  "The test suite builds figments on a single thread per test and never combines figments from different threads.",
  ["src/value/tag.rs", "src/figment.rs"], [("tag allocation", "src/value/tag.rs Tag::next")])
p("C21", "Profile names form one case-insensitive identity everywhere",
  "Two profiles are equal, ordered equal and hash equal exactly when their names are equal ignoring ASCII case, for every way of comparing them with profiles or strings, and ordering is a total order consistent with equality. A profile keeps its original spelling when displayed, serialized, converted to a string and read back, reading one from the environment matches variable names case-insensitively, and only the default and global names, in any case, are not custom.",
  ["inputs"], "all profile names, including unicode, empty and case variants, all comparison and conversion forms",
  "Tests compare a few ASCII names; laws over all pairs and triples are not checked.",
  ["src/profile.rs"], [("identity", "src/profile.rs Profile"), ("environment", "src/profile.rs Profile::from_env")])
p("C22", "Relative path differences lead from the base to the path",
  "For any two paths that are both absolute or both relative, joining the computed difference onto the base and resolving '.' and '..' components lexically gives the place the path denotes; there always is a difference unless the base has parent components below the common prefix. Paths of mixed kind give no result, and the difference of equal paths is empty.",
  ["inputs"], "all pairs of paths of any depth and shared prefix, absolute and relative, with and without '.' and '..' components",
  "The function has no direct test over generated paths.",
  ["src/util.rs"], [("difference", "src/util.rs diff_paths")])
p("C23", "Serde helpers accept and produce exactly their documented forms",
  "The flexible boolean helper accepts exactly booleans, the integers 0 and 1 of any width, and the words true and false in any case, and rejects everything else, in every format and in figments. The tuple-list map helper writes every pair as one map entry and reads every map back as the list of its entries without loss, and nesting a value under a dotted key places it at exactly that path.",
  ["inputs"], "all values and strings, all lists of pairs, all dotted keys",
  "Doc tests check a few literals.",
  ["src/util.rs"], [("boolean helper", "src/util.rs bool_from_str_or_int"), ("map helper", "src/util.rs vec_tuple_map"), ("nesting", "src/util.rs nest")])
p("C24", "Errors chain, count, iterate and print without losing information",
  "Chaining errors in any order keeps all of them: the count equals the number of errors chained, iteration yields each exactly once, and printing shows every error's message, key, source and provider name. Adding paths appends the dotted components in order, the missing-field predicate holds exactly for missing fields, and key interpolation in a printed error uses the provider's own naming with all path components. A file source is shown relative to the current directory when that is shorter, and otherwise in full. Errors and metadata compare equal exactly when they agree in everything but how keys are named.",
  ["inputs", "histories"], "all kinds of errors, chains of any length and shape, all paths, all metadata and interpolators",
  "Tests compare a few fixed messages; chains of chains, long paths and custom interpolators are not generated.",
  ["src/error.rs", "src/metadata.rs"], [("chaining", "src/error.rs chain / count / IntoIter"), ("printing", "src/error.rs Display"), ("interpolation", "src/metadata.rs Metadata::interpolate"), ("sources", "src/metadata.rs Display for Source")])
p("C25", "Figments are values: reusing, cloning or nesting them changes nothing",
  "Extracting, looking up, cloning, focusing or using a figment as a provider never changes it, and repeating an extraction gives the same result. A figment merged into an empty one is indistinguishable from the original (values, profile, attribution, errors), providing by reference equals providing by value, and extracting from a clone equals extracting from the original.",
  ["histories", "inputs"], "all figments from arbitrary histories, all sequences of read operations, all ways of reusing a figment as a provider",
  "Tests nest a figment once or twice in fixed configurations.",
  ["src/figment.rs", "src/provider.rs"], [("figment as provider", "src/figment.rs Provider for Figment"), ("references", "src/provider.rs Provider for &T")])
p("C26", "Value conversions and equality are faithful and tag-independent",
  "Converting any supported native value, list or map into a configuration value and back by the matching accessor returns it unchanged, and every non-matching accessor returns nothing. Equality of values depends only on their data, never on their tags, and is reflexive and symmetric; integer and float accessors return the exact number or nothing; serializing a value to an external format writes exactly its data.",
  ["inputs"], "all native values and nested collections, all pairs of values, all accessors",
  "Doc tests exercise each accessor once.",
  ["src/value/value.rs", "src/value/ser.rs"], [("conversions", "src/value/value.rs From impls and accessors"), ("equality", "src/value/value.rs PartialEq"), ("serialization", "src/value/ser.rs")])
p("C27", "Metadata lists every provider once, in order, with its call sites",
  "The metadata of a figment enumerates exactly one entry per provider ever combined into it, in the order the providers were provided, including those inside nested figments, with the name, source and interpolation the provider declared. Each entry records the source location of the call that provided it, whichever combining method was used, and code-based providers record the location where they were constructed.",
  ["histories"], "all histories of combining calls through every method, wrappers and nested figments",
  "Tests check one or two call-site lines.",
  ["src/figment.rs", "src/metadata.rs", "src/provider.rs", "src/providers/serialized.rs"],
  [("metadata map", "src/figment.rs Figment::provide / metadata"), ("call sites", "track_caller on provide, join, merge, Serialized::from")])
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
    r["anchors"] = {k: v for k, v in r["anchors"].items() if v}
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
