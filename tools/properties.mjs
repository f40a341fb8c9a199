// Single source of the property list; tools/gen.mjs writes properties.jsonl
// and MANIFEST.json from it.
const C = "packages/core/src/";
const mech = (...xs) => xs.map(([name, where]) => ({ name, where }));
export const properties = [
  {
    id: "P01", title: "Options, flags and arguments decode every spelling exactly",
    statement: "For any object or tuple of flags, Boolean options, negatable flags, value options and positional arguments, and any token list, parsing succeeds exactly when every token can be accounted for by the documented spellings (separate value, `--name=value`, `-name=value`, `/name:value`, bundled short flags, `--` ends options) with each option used at most once, every required item present and every value valid. The resulting value is then exactly the one those tokens spell; otherwise parsing fails and no value is produced.",
    over: ["inputs", "programs"],
    q: "every program made of up to four primitive fields (all kinds, including slash, plus and single-dash long names) and every token list up to the depth bound over an alphabet that contains each spelling of each name, near misses, values, `--` and `-`",
    why: "The unit tests sample a few hundred hand-written command lines and fast-check draws random ones; which spelling/duplicate/terminator combination is mishandled depends on the joint choice of program shape and whole token list.",
    files: [C + "primitives.ts", C + "constructs.ts", C + "internal/parser.ts"],
    mech: mech(["option/flag/negatableFlag/argument token matching", C + "primitives.ts"], ["greedy field loop of object()/tuple()", C + "constructs.ts"], ["outer parse loop (stall detection)", C + "internal/parser.ts"]),
    observe: ["parse()", "parseSync()", "parseAsync()"],
  },
  {
    id: "P02", title: "Nested combinators parse as their grammar says",
    statement: "For any parser nested from object, tuple, seq, or, longestMatch, merge, concat, group, conditional, command, optional, withDefault, multiple, map, nonEmpty, constant, fail and the primitives, the outcome (success or failure, and the value) for any token list is the one given by the documented meaning of each combinator composed structurally. In particular priorities, not declaration order, decide which field takes a token, and a wrapper changes only what its documentation says it changes.",
    over: ["inputs", "programs"],
    q: "every program of a combinator grammar up to a size bound and every token list up to the depth bound over the program's own alphabet",
    why: "Tests fix particular nestings; state carried through wrappers inside wrappers, and rewinding after a partially matching branch, can be wrong for one nesting and one token order only.",
    files: [C + "constructs.ts", C + "modifiers.ts", C + "primitives.ts"],
    mech: mech(["construct parse/complete functions", C + "constructs.ts"], ["modifier state wrapping", C + "modifiers.ts"], ["command() state machine", C + "primitives.ts"]),
    observe: ["parse()"],
  },
  {
    id: "P03", title: "Pass-through keeps every forwarded token, in order, and nothing else",
    statement: "With a passThrough field, every token that no other field accounts for and that its format documents as captured appears in the captured list verbatim, exactly once and in command-line order, and tokens that belong to declared options, commands or arguments never do. Tokens the format does not capture make parsing fail instead of disappearing.",
    over: ["inputs", "programs"],
    q: "all three formats, alone and combined with flags, value options, arguments and commands, over every token list up to the bound including `--`, `--x=y`, negative numbers and empty strings",
    why: "Conservation of tokens is a statement about all interleavings of known and unknown tokens; tests check a handful per format.",
    files: [C + "primitives.ts", C + "constructs.ts"],
    mech: mech(["passThrough()", C + "primitives.ts"]),
    observe: ["parse()"],
  },
  {
    id: "P04", title: "Asynchronous parsing agrees with synchronous parsing on every schedule",
    statement: "A parser whose value parsers answer asynchronously yields the same outcome (value, or the same error message), the same completion suggestions and the same documentation page as the otherwise identical synchronous parser, in whatever order and with whatever delay the asynchronous answers arrive. Running several parses of one parser concurrently gives each the result it would have had alone.",
    over: ["schedules", "inputs", "programs"],
    q: "every program of the combinator grammar up to a bound in synchronous and asynchronous form, every token list up to a bound, every order in which pending answers are delivered, and pairs of concurrent parses",
    why: "Nearly every combinator has two separately written code paths; tests exercise the asynchronous one with a few shapes and a single natural schedule.",
    files: [C + "constructs.ts", C + "modifiers.ts", C + "primitives.ts", C + "internal/mode-dispatch.ts", C + "internal/parser.ts"],
    mech: mech(["dispatchByMode and the parseSync/parseAsync pairs", C + "internal/mode-dispatch.ts"]),
    observe: ["parseAsync()", "suggestAsync()", "getDocPageAsync()"],
  },
  {
    id: "P05", title: "Parsers are immutable: no call influences another",
    statement: "Parsing, suggesting, and producing documentation or usage never change the parser, its arguments or any earlier result: for any sequence of such calls on one parser object each call returns what it returns on a freshly built identical parser. Argument arrays, default values and returned results are never mutated.",
    over: ["histories", "programs", "inputs"],
    q: "every sequence of operations (parse of several inputs, suggest, help page, usage) up to the depth bound on every program of a catalogue that includes lazily cached paths, dependencies, stateful regular expressions, factories and annotations",
    why: "Tests build a fresh parser per case; leaked state only shows in multi-call histories.",
    files: [C + "constructs.ts", C + "modifiers.ts", C + "annotation-state.ts", C + "internal/annotations.ts", C + "valueparser.ts"],
    mech: mech(["per-parse state threading and WeakMap caches", C + "constructs.ts"], ["annotation wrappers", C + "internal/annotations.ts"]),
    observe: ["parse()", "suggest()", "getDocPage()"],
  },
  {
    id: "P06", title: "Alternatives are exclusive and chosen deterministically",
    statement: "or() yields the value of exactly one branch, the first in declaration order that accepts the input, and rejects input that mixes tokens of different branches; longestMatch() yields the branch that consumes the most tokens and the earliest on a tie; conditional() yields the branch named by the discriminator value (the default branch when it is absent) and rejects options of any other branch. No value or default of an unselected branch leaks into the result.",
    over: ["inputs", "programs"],
    q: "all sets of two or three branches from a branch catalogue (disjoint, overlapping, nested, command, defaulted), bare and inside object/merge/optional/multiple, over all token lists up to the bound",
    why: "Branch switching after a shared prefix, ties, and rewinds depend on the order of tokens across branches; tests pick a few orders.",
    files: [C + "constructs.ts"],
    mech: mech(["or()/longestMatch() branch bookkeeping", C + "constructs.ts"], ["conditional() branch selection", C + "constructs.ts"]),
    observe: ["parse()"],
  },
  {
    id: "P07", title: "Absent, present and invalid are never confused by wrappers",
    statement: "optional() yields undefined and withDefault() its default exactly when the wrapped parser supplied no value; a present but invalid value is an error and is never replaced by undefined, a default, an empty list or another source. multiple() yields the values in command-line order and enforces its minimum and maximum, nonEmpty() succeeds only if a token was consumed, and map() yields its function applied to the value that would otherwise be returned, once for each value given on the command line.",
    over: ["inputs", "programs"],
    q: "every stack of up to three wrappers over every primitive and small construct, and every token list up to the bound including invalid values before and after valid ones",
    why: "The property ranges over wrapper stacks and the position of the bad token; tests use one wrapper at a time.",
    files: [C + "modifiers.ts"],
    mech: mech(["optional/withDefault/multiple/map/nonEmpty", C + "modifiers.ts"]),
    observe: ["parse()"],
  },
  {
    id: "P08", title: "Dependent options are judged by the dependency's final value",
    statement: "The value of a derived option is accepted and decoded exactly as by the value parser its factory returns for the values its dependencies finally have (command-line value, else default), no matter in which order the options appear, how the parts are nested or merged, or whether factories are asynchronous. When a dependency is absent the declared default value is used.",
    over: ["inputs", "programs", "schedules"],
    q: "one or two dependency sources and one or two derived options in every layout (object, tuple, merge, concat, command, or-branch, optional/withDefault/multiple wrappers), all option orders, all values, sync and async factories",
    why: "Order independence and layout independence quantify over permutations of tokens and program shapes.",
    files: [C + "internal/dependency.ts", C + "dependency-runtime.ts", C + "dependency-metadata.ts", C + "constructs.ts", C + "primitives.ts"],
    mech: mech(["input trace and replay of derived parsers", C + "dependency-runtime.ts"]),
    observe: ["parse()"],
  },
  {
    id: "P09", title: "Completion offers every acceptable continuation and nothing the input excludes",
    statement: "Every suggestion starts with the typed prefix, is offered once, and is an option, command, alias or value of a part that the tokens typed so far do not exclude: never of a command not entered, of an alternative or branch other than the chosen one, or of a hidden item; while an option of an object waits for its value only that option's values are offered. Conversely every visible option name (for a prefix that starts like an option), command name or alias and enumerated value that can be accepted at that point and starts with the prefix is offered.",
    over: ["inputs", "programs"],
    q: "every program of a catalogue, every accepted-so-far token list up to the bound and every prefix of every candidate word",
    why: "Completeness and soundness at every cursor position of every partial command line cannot be listed by hand.",
    files: [C + "constructs.ts", C + "modifiers.ts", C + "primitives.ts", C + "suggestion.ts", C + "internal/parser.ts"],
    mech: mech(["suggest() of each parser", C + "primitives.ts"], ["alias expansion and deduplication", C + "suggestion.ts"]),
    observe: ["suggest()", "suggestSync()", "suggestAsync()"],
  },
  {
    id: "P10", title: "Completion of dependent options uses the dependency value typed so far",
    statement: "Suggestions for a derived option's value are those of the value parser its factory returns for the dependency values already present on the command line, wherever they stand, or for the declared default values if absent. They never come from another dependency value and never make completion fail.",
    over: ["inputs", "programs"],
    q: "the dependency layouts of the previous property, every partial command line and prefix",
    why: "Quantifies over cursor positions and layouts.",
    files: [C + "dependency-runtime.ts", C + "constructs.ts", C + "internal/parser.ts", C + "internal/dependency.ts"],
    mech: mech(["suggest runtime nodes", C + "internal/parser.ts"]),
    observe: ["suggest()"],
  },
  {
    id: "P11", title: "Hidden items parse normally but stay out of the surfaces they are hidden from",
    statement: "For each visibility setting (hidden, usage, doc, help) on a primitive, command or enclosing group, an item is absent from exactly the surfaces that setting names (usage line, help entries, completion, did-you-mean hints), combined as a union over enclosing wrappers, and present in all the others. Parsing results are the same as with no visibility setting.",
    over: ["inputs", "programs", "configurations"],
    q: "every assignment of visibility settings to items and wrappers in a catalogue of programs, over all surfaces and all token lists up to a bound",
    why: "Surfaces times settings times nesting is a product that tests only touch along the axes.",
    files: [C + "usage.ts", C + "doc.ts", C + "constructs.ts", C + "primitives.ts", C + "suggestion.ts", C + "facade.ts"],
    mech: mech(["isUsageHidden/isDocHidden/isSuggestionHidden/mergeHidden", C + "usage.ts"]),
    observe: ["formatUsage()", "getDocPage()", "suggest()", "error messages"],
  },
  {
    id: "P12", title: "Usage and help tell the truth about the grammar",
    statement: "The generated usage line marks an item as required exactly if omitting it makes parsing fail and as repeatable exactly if it may be repeated, and every command line read off the usage line is accepted by the parser. Every visible option, argument and command reachable at that point has exactly one help entry, for the root and for each subcommand path.",
    over: ["programs", "inputs"],
    q: "every program of the combinator catalogue, every command line derivable from its usage up to a repetition bound, and every command path",
    why: "Relates three independently computed views (usage, documentation, parser) for all programs.",
    files: [C + "usage.ts", C + "doc.ts", C + "internal/parser.ts", C + "constructs.ts", C + "modifiers.ts"],
    mech: mech(["usage terms built by every parser", C + "primitives.ts"], ["getDocFragments / buildDocPage", C + "internal/parser.ts"]),
    observe: ["formatUsage()", "getDocPage()"],
  },
  {
    id: "P13", title: "Ambiguous or malformed definitions are rejected when built",
    statement: "Building an object, tuple, merge or seq in which two simultaneously active parts share an option name, or an alternative in which two active siblings share a command name or alias, throws at construction (unless duplicates are explicitly allowed), and malformed option, command or program names, labels and aliases are rejected too. Definitions without such a conflict are never rejected.",
    over: ["programs"],
    q: "every pair and triple of parts from a catalogue, in every combinator and nesting, against an independently computed conflict relation; every name over a small alphabet of special characters",
    why: "The conflict relation depends on reachability through nested wrappers and branches.",
    files: [C + "constructs.ts", C + "validate.ts", C + "internal/command-alias.ts"],
    mech: mech(["checkDuplicateOptionNames and command name checks", C + "constructs.ts"], ["name validators", C + "validate.ts"]),
    observe: ["constructor TypeError"],
  },
  {
    id: "P14", title: "Numeric value parsers accept exactly their documented syntax and range",
    statement: "integer(), float(), port(), portRange() and fileSize() accept a string exactly if it is in their documented syntax and within the configured bounds, and return the number it denotes exactly (no rounding, wrap-around or loss for large values); every other string is rejected. Formatting an accepted value and parsing it again gives an equal value.",
    over: ["inputs", "configurations"],
    q: "every string up to a length bound over a numeric alphabet plus all boundary values and their neighbours, for every combination of options",
    why: "Acceptance is a statement about every string; tests use tables.",
    files: [C + "valueparser.ts"],
    mech: mech(["integer/float/port/portRange/fileSize", C + "valueparser.ts"]),
    observe: ["ValueParser.parse()", "ValueParser.format()"],
  },
  {
    id: "P15", title: "Network value parsers accept exactly well-formed addresses",
    statement: "ipv4(), ipv6(), ip(), cidr(), macAddress(), hostname(), domain(), email(), socketAddress() and url() accept a string exactly if it is a well-formed value of that kind satisfying the configured restrictions, and return it in the documented normal form. Formatting an accepted value and parsing it again gives an equal value.",
    over: ["inputs", "configurations"],
    q: "every composition of component values from boundary sets (octets, groups, prefixes, ports, labels, separators), with one mutation at every position, for every combination of restriction options",
    why: "Grammar membership and special ranges (private, loopback, reserved) quantify over the address space.",
    files: [C + "valueparser.ts"],
    mech: mech(["address parsers", C + "valueparser.ts"]),
    observe: ["ValueParser.parse()", "ValueParser.format()"],
  },
  {
    id: "P16", title: "Text and structured value parsers accept exactly their language",
    statement: "string(), choice(), uuid(), semVer(), color(), json(), cron(), locale(), keyValue(), firstOf(), biject() and transform() accept a string exactly if it belongs to the documented language under the configured options, and return the value it denotes. Formatting an accepted value and parsing it again gives an equal value.",
    over: ["inputs", "configurations"],
    q: "every string up to a length bound over each parser's alphabet, or every composition of boundary components, for every combination of options, against independent recognisers",
    why: "Acceptance is a statement about every string and option combination.",
    files: [C + "valueparser.ts"],
    mech: mech(["text parsers", C + "valueparser.ts"]),
    observe: ["ValueParser.parse()", "ValueParser.format()"],
  },
  {
    id: "P17", title: "Did-you-mean hints are close, visible, ranked and bounded",
    statement: "Hints attached to an error name only candidates that are really available and visible at that point, within the configured edit distance and ratio of the mistyped token, in order of increasing distance and at most the configured number; and if any candidate qualifies, the closest is included. The distance used is the true edit distance.",
    over: ["inputs", "configurations"],
    q: "all pairs of words up to a length bound over a small alphabet against a reference distance, all candidate sets and settings in a bound, and all mistyped tokens for a catalogue of programs",
    why: "Ranking and cut-offs depend on the whole candidate set.",
    files: [C + "suggestion.ts"],
    mech: mech(["levenshteinDistance/findSimilar", C + "suggestion.ts"]),
    observe: ["findSimilar()", "error messages"],
  },
  {
    id: "P18", title: "Date and time value parsers agree with Temporal",
    statement: "Each temporal value parser accepts exactly the strings its Temporal type (or IANA zone list) accepts under the documented restrictions and returns the same point, date, time, duration or zone that Temporal itself computes. Formatting and parsing again gives an equal value.",
    over: ["inputs"],
    q: "compositions of boundary components (years, months, days incl. leap days, times, offsets, zones, annotations) with single mutations, for all parsers",
    why: "Calendar boundaries and mixed forms are combinatorial.",
    files: ["packages/temporal/src/index.ts"],
    mech: mech(["instant/plainDate/.../timeZone", "packages/temporal/src/index.ts"]),
    observe: ["ValueParser.parse()"],
  },
  {
    id: "P19", title: "Schema adapters accept exactly what the schema accepts",
    statement: "A value parser made from a Zod, Valibot or Standard Schema accepts a command-line string exactly if the schema accepts it (after the documented coercion of Boolean and enumerated inputs) and returns the schema's output, never the raw input. Its suggested choices are all accepted by the schema, and sync adapters refuse asynchronous schemas instead of skipping them.",
    over: ["inputs", "programs"],
    q: "a catalogue of schemas (string, number, coerced, enum, literal, union, Boolean, refined, transformed, optional, piped, async) times every input in a boundary set",
    why: "Agreement between two validators over all inputs and schema shapes.",
    files: ["packages/zod/src/index.ts", "packages/valibot/src/index.ts", "packages/standard-schema/src/index.ts"],
    mech: mech(["schema to value parser", "packages/zod/src/index.ts"]),
    observe: ["ValueParser.parse()", "ValueParser.choices"],
  },
  {
    id: "P20", title: "Path arguments agree with the file system",
    statement: "path() accepts a string exactly if its documented conditions (existence or non-existence, file or directory type, allowed extensions, existing parent directory for creation, non-empty) hold in the file system, and its suggestions follow the same type, extension and hidden-file filters. It never creates, changes or removes anything.",
    over: ["configurations", "inputs"],
    q: "every combination of options times every file-system state in a small scratch directory (missing, file, directory, symlinks, dangling, hidden, extensions, nested missing parents)",
    why: "The product of option flags and file-system states is far larger than the tests' table.",
    files: ["packages/run/src/valueparser.ts"],
    mech: mech(["path()", "packages/run/src/valueparser.ts"]),
    observe: ["ValueParser.parse()", "ValueParser.suggest()"],
  },
  {
    id: "P21", title: "Git reference parsers agree with the repository",
    statement: "For every repository state, each git value parser accepts a name exactly if that branch, tag, remote, remote branch or commit (full or unambiguous abbreviated id) exists, and returns the documented value (the name, or the object id it resolves to). Suggestions name only existing references matching the prefix, without repetition.",
    over: ["inputs", "configurations"],
    q: "all repositories built from subsets of a small set of branches, tags (light and annotated), remotes and commits, times all inputs from names, ids, every id prefix and near misses",
    why: "Agreement with repository state for all names and prefixes.",
    files: ["packages/git/src/index.ts"],
    mech: mech(["gitBranch/gitTag/gitRemote/gitRemoteBranch/gitCommit/gitRef", "packages/git/src/index.ts"]),
    observe: ["ValueParser.parse()", "ValueParser.suggest()"],
  },
  {
    id: "P22", title: "Message formatting loses no text and respects the width",
    statement: "Formatting a message with any combination of colours, quotes, reset suffix and maximum width shows exactly the message's words in order; with a width, no output line is wider than it unless a single unbreakable piece is, measuring wide and combining characters correctly. Colour sequences are balanced at the end of the output and do not count towards the width.",
    over: ["inputs", "configurations"],
    q: "all messages of up to four terms from a catalogue of every term kind and text shapes (wide, combining, newlines, long words) times all option combinations and widths",
    why: "Wrapping correctness quantifies over break positions and term boundaries.",
    files: [C + "message.ts", C + "displaywidth.ts"],
    mech: mech(["formatMessage", C + "message.ts"], ["getDisplayWidth", C + "displaywidth.ts"]),
    observe: ["formatMessage()"],
  },
  {
    id: "P23", title: "Help pages keep all content at every width",
    statement: "Rendering a documentation page shows every brief, usage, section title, entry term, description, default, choice list, example, author, bug and footer text it contains, in order, under every formatting option and width; lines stay within a feasible width and the text is the same with and without colours once colour sequences are removed.",
    over: ["inputs", "configurations"],
    q: "a catalogue of pages (all optional parts on or off) times widths and layout options",
    why: "Layout arithmetic (term column, wrapping, indentation) over all widths.",
    files: [C + "doc.ts", C + "usage.ts"],
    mech: mech(["formatDocPage", C + "doc.ts"], ["formatUsage", C + "usage.ts"]),
    observe: ["formatDocPage()", "formatUsage()"],
  },
  {
    id: "P24", title: "Man pages render the text verbatim, whatever characters it contains",
    statement: "A generated manual page, rendered by a real roff processor, shows every option name, metavariable, description and metadata text of the program exactly as written, and no text of the program can act as a roff request, macro, escape or macro argument boundary. All visible options and commands appear.",
    over: ["inputs", "programs"],
    q: "every text up to a length bound over the characters special to roff (dot, apostrophe, backslash, quote, hyphen, newline, space) in every text position of the page, in batches rendered by mandoc and groff",
    why: "Escaping must hold for all texts in all positions; tests compare fixed strings.",
    files: ["packages/man/src/roff.ts", "packages/man/src/man.ts", "packages/man/src/generator.ts"],
    mech: mech(["escapeRoff/escapeHyphens/escapeRequestArg", "packages/man/src/roff.ts"]),
    observe: ["generateManPage()", "formatMessageAsRoff()"],
  },
  {
    id: "P25", title: "Shell completion scripts deliver suggestions faithfully and never execute them",
    statement: "With the generated script loaded in a real shell, completing a word offers exactly the suggestions the program produced for the words typed so far, for any characters in suggestions, descriptions and typed words that the shell can represent, and no part of a suggestion or typed word is executed as a command. Program names that could break out of the script are rejected.",
    over: ["inputs", "programs"],
    q: "every suggestion text up to a length bound over shell-special characters and every typed word likewise, in bash, zsh and fish; the encodings of all five shells",
    why: "Quoting must be right for every character in every position; tests try single examples.",
    files: [C + "completion.ts", C + "facade.ts"],
    mech: mech(["generateScript/encodeSuggestions per shell", C + "completion.ts"]),
    observe: ["shell COMPREPLY", "encoded output"],
  },
  {
    id: "P26", title: "Help, version and completion requests are served only when left unclaimed",
    statement: "A configured help, version or completion option or command is served (on standard output, with a zero exit) only when the user's parser does not itself accept the command line and leaves those tokens unconsumed (never after --); when it accepts, the parse result wins. Any other command line produces either the parsed value or an error on standard error with a failing exit, and exactly one of these outcomes happens, for every configuration of the meta features and every token list.",
    over: ["inputs", "configurations", "programs"],
    q: "all configurations of help/version/completion (command, option, both, renamed, aliased) times a catalogue of parsers that do and do not claim those names, times all token lists up to the bound",
    why: "Precedence among meta requests and user grammar depends on position and configuration jointly.",
    files: [C + "facade.ts"],
    mech: mech(["classifyResult and meta parsers in runParser", C + "facade.ts"]),
    observe: ["runParser()", "runParserAsync()"],
  },
  {
    id: "P27", title: "Source contexts are consulted in order, at most twice, and always disposed",
    statement: "A run with source contexts asks each context for its annotations once before parsing and, only if some context needs the parsed value, a second time with the first-pass value; earlier contexts override later ones and a context's second answer replaces its first. Every context is disposed exactly once, after the final parse, on every path (success, parse error, help/version/completion, and an exception or rejection at any call), and the original failure is what is reported.",
    over: ["fault_sequences", "schedules", "configurations"],
    q: "up to three contexts of every kind (single-pass, two-pass, sync, async, disposable sync/async), every placement of one or two faults, every delivery order of asynchronous answers, for each command-line outcome",
    why: "Exactly-once disposal and error precedence quantify over fault points and schedules.",
    files: [C + "facade.ts", C + "context.ts"],
    mech: mech(["runWith/runWithSync two-phase protocol", C + "facade.ts"], ["disposeContexts", C + "facade.ts"]),
    observe: ["context callbacks", "runWith()", "runWithSync()"],
  },
  {
    id: "P28", title: "Value sources override each other in the documented order",
    statement: "For any nesting of environment, configuration, derived-default and static-default bindings around an option, the result is the command-line value if given, else the value of the outermost binding that has one, and so inwards down to defaults; with none, parsing fails. A fallback value that violates the wrapped option's constraints is rejected whichever source it came from, and an invalid command-line value is never replaced by a fallback.",
    over: ["configurations", "inputs", "programs"],
    q: "every nesting of up to three bindings and wrappers, every subset of sources that supply a valid, invalid or missing value, with and without a command-line value, under both runners",
    why: "Precedence and revalidation are a product of nesting and availability.",
    files: ["packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", C + "modifiers.ts"],
    mech: mech(["bindEnv", "packages/env/src/index.ts"], ["bindConfig", "packages/config/src/index.ts"], ["bindDerivedDefault", "packages/derived-defaults/src/index.ts"]),
    observe: ["runWith()", "runWithSync()"],
  },
  {
    id: "P29", title: "Dotenv files mean what the documented syntax says",
    statement: "Reading any .env text yields the assignments of the documented grammar: comments and blank lines ignored, optional export, single quotes literal, double quotes with escapes and multi-line values, inline comments after unquoted values, and $VAR/${VAR} expansion in one left-to-right pass that prefers the real environment; later files override earlier ones and real variables override files. Commands are never executed; command substitutions go to the configured hook or become empty.",
    over: ["inputs"],
    q: "every text up to a length bound over the syntax alphabet assembled from all pieces of the grammar, against an independent reader; all pairs of files and environments in a bound",
    why: "Quoting and expansion interact over all character sequences.",
    files: ["packages/env/src/index.ts"],
    mech: mech(["dotenv parser", "packages/env/src/index.ts"]),
    observe: ["createEnvContext({envFile})", "bindEnv()"],
  },
  {
    id: "P30", title: "Configuration loading is validated, isolated per run and fails loudly",
    statement: "A run uses exactly the configuration its own loader or file produced after schema validation: a missing optional file or an empty load falls back to defaults, while unreadable, unparsable or schema-violating content is an error and never a silent fallback. Concurrent and successive runs sharing one context never see each other's configuration.",
    over: ["fault_sequences", "schedules", "histories"],
    q: "every loader outcome (value, undefined, null, rejected, thrown, malformed, async in every order) for one to two concurrent or successive runs sharing a context",
    why: "Isolation is about interleavings and histories.",
    files: ["packages/config/src/index.ts"],
    mech: mech(["createConfigContext getAnnotations", "packages/config/src/index.ts"]),
    observe: ["runWith()"],
  },
  {
    id: "P31", title: "Prompts run only for missing values, once each, in order",
    statement: "A prompted field asks the user exactly once per pass (once per run, except that a run with a two-pass context may ask again in its second pass) if and only if neither the command line nor an inner source supplied its value and no error or meta request ended the run; a prompt around a configuration binding is put off to the second pass; several prompted fields ask in field order, one after another. A cancelled or failing prompt is a parse failure, a thrown prompt error propagates, and no later prompt is asked afterwards.",
    over: ["inputs", "fault_sequences", "schedules", "programs"],
    q: "every layout of up to three prompted fields and wrappers, every subset given on the command line or by the environment, every prompt outcome (value, failure, throw)",
    why: "Single execution across probing, two-phase parsing and branches depends on layout and availability together.",
    files: ["packages/prompt/src/index.ts", "packages/inquirer/src/index.ts", "packages/clack/src/index.ts"],
    mech: mech(["createPromptAdapter parse/complete", "packages/prompt/src/index.ts"]),
    observe: ["adapter execute calls", "parseAsync()", "runWith()"],
  },
  {
    id: "P32", title: "Derived defaults are computed from the parsed values and rank below the CLI",
    statement: "A derived default is computed from the first-pass values of the same run and used exactly when the command line (and outer sources) supplied none; a resolver that returns nothing falls through to the static default or a missing-value error. Derived and static values are validated like command-line values, and resolver failures are reported, for sync and async resolvers alike.",
    over: ["inputs", "configurations", "fault_sequences"],
    q: "layouts of up to two derived fields in object, merge, command and optional positions, every subset of given options, resolver outcomes (value, undefined, invalid, throw, reject, async)",
    why: "The two-phase protocol's result depends on which fields are still missing in the seed.",
    files: ["packages/derived-defaults/src/index.ts", C + "phase2-seed.ts", C + "facade.ts"],
    mech: mech(["createDerivedDefaults/bindDerivedDefault", "packages/derived-defaults/src/index.ts"], ["phase-two seed extraction", C + "phase2-seed.ts"]),
    observe: ["runWith()", "runWithSync()"],
  },
  {
    id: "P33", title: "Deferred values resolve lazily and memoise safely",
    statement: "A deferred field never runs its fallback during parsing; calling it returns the specified value if there was one, and otherwise runs the fallback once per call, or at most once successfully when memoised, sharing one in-flight attempt among overlapping calls and retrying after a rejection. The source indicator always agrees with the branch taken.",
    over: ["schedules", "histories", "fault_sequences"],
    q: "every sequence of up to four calls and settlements (resolve, reject, throw) in every order, with and without memoisation, for specified and missing values",
    why: "Overlapping calls and retries are schedules, not inputs.",
    files: [C + "modifiers.ts"],
    mech: mech(["deferredValue", C + "modifiers.ts"]),
    observe: ["DeferredValue calls"],
  },
  {
    id: "P34", title: "Process runs write to the right stream and exit with the right code",
    statement: "run() and its variants return the value on success; for help, version and completion they write to standard output and exit with code 0; for any parse error they write only to standard error and exit with the configured error code (1 by default); nothing else is printed and the exit happens exactly once. Program metadata and options given separately behave alike.",
    over: ["inputs", "configurations"],
    q: "all runner variants times option settings times a catalogue of command lines, in-process with recorded streams and in real child processes",
    why: "The product of runner, configuration and outcome.",
    files: ["packages/run/src/run.ts", "packages/run/src/print.ts"],
    mech: mech(["run/runSync/runAsync", "packages/run/src/run.ts"]),
    observe: ["stdout", "stderr", "exit code"],
  },
  {
    id: "P35", title: "Command discovery maps files to commands one to one and dispatches to them",
    statement: "For any set of command files, the command path of each is its relative path without its longest configured suffix and entry-file name, declaration and test files are ignored, and two files mapping to one path are rejected; running a command path invokes exactly that command's handler, once, with its parsed value. File-based discovery, static module maps and the generated module give the same command set.",
    over: ["inputs", "configurations", "programs"],
    q: "every subset up to a bound of a file-name universe (nested directories, entry files, compound suffixes, declaration and test files, same-named file and directory) times discovery options, and every command line naming a path",
    why: "Collisions arise only for particular combinations of files.",
    files: ["packages/discover/src/index.ts", "packages/discover/src/generator.ts", "packages/discover/src/command.ts"],
    mech: mech(["path derivation and duplicate check", "packages/discover/src/index.ts"], ["module generator", "packages/discover/src/generator.ts"]),
    observe: ["discoverCommands()", "commandsFromModules()", "runProgram()"],
  },
  {
    id: "P36", title: "Lifecycle hooks nest, unwind in reverse and never swallow errors",
    statement: "Around a dispatched command, program-level hooks enclose command-level hooks, each beforeEach that completed is matched by exactly one afterEach on success or one onError on failure, in reverse order, and the error finally thrown is the first one raised. Parse errors and meta requests trigger no hook or handler.",
    over: ["fault_sequences", "schedules", "configurations"],
    q: "every assignment of outcomes (ok, throw, reject, resource or none, sync or async) to the up to six hooks and the handler",
    why: "Pairing under faults at every point is a fault-sequence property.",
    files: ["packages/discover/src/index.ts", "packages/discover/src/command.ts"],
    mech: mech(["hook invocation in runProgram", "packages/discover/src/index.ts"]),
    observe: ["hook and handler calls"],
  },
  {
    id: "P37", title: "Logging options map flags to levels and outputs as documented",
    statement: "The verbosity, debug, log-level, output and formatter parsers, alone or in the preset, yield for every command line the documented level (each repetition one step more verbose, saturating at the most verbose) and output, reject conflicting or invalid settings, and the created sinks write each record to the selected stream or file only.",
    over: ["inputs", "configurations"],
    q: "every preset configuration times all token lists up to the bound; every level and stream setting for sinks",
    why: "Counting and saturation over all token spellings and base levels.",
    files: ["packages/logtape/src/verbosity.ts", "packages/logtape/src/preset.ts", "packages/logtape/src/output.ts", "packages/logtape/src/loglevel.ts", "packages/logtape/src/debug.ts"],
    mech: mech(["verbosity()", "packages/logtape/src/verbosity.ts"], ["loggingOptions()", "packages/logtape/src/preset.ts"]),
    observe: ["parse()", "createSink()"],
  },
];
