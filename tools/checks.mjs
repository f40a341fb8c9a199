const REF = "Bounded-exhaustive (breadth-first) enumeration of token histories on the real parser, compared state by state with an independent reference interpreter";
export const checks = [
  { property: "P01", level: "model_checking", technique: REF,
    note: "Exhaustive for the field catalogue, program sizes and token depths in the evidence file; values come from a small alphabet." },
  { property: "P02", level: "model_checking", technique: REF, note: "Nested programs of every shape up to the size in the evidence file; classes with a recorded finding are judged on their canonical input only." },
  { property: "P03", level: "model_checking", technique: REF, note: "Every layout of the pass-through catalogue with every token list up to the depth in the evidence file." },
  { property: "P04", level: "model_checking", technique: "Stateless exploration of every delivery order of pending asynchronous answers on the real code (depth-first over schedules), compared with the synchronous twin on every enumerated token list", note: "Schedules are orders of promise resolutions; up to two operations run together on one parser; a class with a recorded dependency finding is compared on its canonical input only." },
  { property: "P08", level: "model_checking", technique: "Exhaustive enumeration of dependency layouts, wrappers, values and option orders on the real parser against a direct statement of acceptance, plus every delivery order of asynchronous factories on a slice", note: "Layouts with a recorded finding (concat with a later source, cross-scope nesting) are judged on their canonical input only." },
  { property: "P05", level: "model_checking", technique: "Exhaustive enumeration of operation sequences (parse, suggest, documentation, usage, single step) on one real parser object, each step compared with a freshly built parser and with snapshots of parser, arguments and earlier results", note: "All sequences of length 2-3 over 5-14 operations with pairwise different results per program." },
  { property: "P06", level: "model_checking", technique: "Bounded-exhaustive enumeration of alternatives, contexts and token histories on the real parser, judged against the branches run alone on the same tokens, plus the exact choice of every single step", note: "Branch pairs and triples of an 18-branch catalogue in 6 contexts; conditional() with 3 discriminators, 7 branches; speculation with an asynchronous defaulted discriminator is not judged (documented as best effort)." },
  { property: "P07", level: "model_checking", technique: "Exhaustive enumeration of wrapper stacks, parts, positions and occurrence histories on the real parser, judged by a compositional denotation", note: "All stacks up to depth 3 (quick) or 4 over 11 wrappers and 9 parts; which of two stacked suppliers wins when the part is absent is not documented and not judged." },
  { property: "P09", level: "model_checking", technique: "Exhaustive enumeration of programs, partial command lines and prefixes on the real completer, judged in both directions by exhaustive search for accepted completions and by structural reachability", note: "All shapes of the catalogue, all viable token prefixes up to depth 2 (quick) or 3, all prefixes of all words; classes with a recorded finding are judged on their canonical input." },
  { property: "P10", level: "model_checking", technique: "Exhaustive enumeration of dependency layouts, wrappers, asynchrony, option orders and prefixes on the real completer against a direct statement", note: "25 layouts; defaults of sources in nested objects are a recorded finding and judged on the canonical input only." },
  { property: "P11", level: "model_checking", technique: "Exhaustive enumeration of visibility settings over parts, wrappers, containers and contexts on the real code, each surface and every token list compared with the same program without settings", note: "7 parts, 5 wrappers, up to 2 containers with their own setting, 7 contexts, all 6 settings each; terms inside a hidden command on the usage line are a recorded finding." },
  { property: "P12", level: "model_checking", technique: "Exhaustive comparison, on the real code, of the bounded language of every program's usage terms with the bounded language its parser accepts (all item sequences), of the usage text with its terms, and of help pages with the reachable parts on every command path", note: "All shapes of the catalogue up to two nested levels, items per line up to 3 (quick) or 4; languages compared up to item order; classes with a recorded finding judged on their canonical input." },
  { property: "P13", level: "model_checking", technique: "exhaustive enumeration of definitions (pairs and triples of wrapped parts in every combinator) and of names over an alphabet, against a conflict relation computed by state exploration of the reference interpreter", note: "names up to 3 characters over 20 special characters; meta name combinations" },
  { property: "P14", level: "model_checking", technique: "exhaustive enumeration of all short strings over a numeric alphabet and of boundary values with all near-misses, for every configuration, against recognisers with exact arithmetic; exhaustive format/parse round trips", note: "strings up to 4 (quick) or 6 (thorough) symbols; sizes k/100 of every unit" },
  { property: "P15", level: "model_checking", technique: "explicit enumeration of all input strings composed of boundary components with every single mutation, replayed on the real parsers against independent recognisers", note: "exhaustive over every composition of boundary octets, groups, labels and separators and every single-symbol near-miss, for every combination of restriction options" },
  { property: "P16", level: "model_checking", technique: "explicit enumeration of all strings over each parser's alphabet up to a length bound plus all boundary compositions and single mutations, replayed on the real parsers against independent recognisers", note: "exhaustive over every string up to length 4 to 7 over each grammar's alphabet and every single-symbol near-miss of representatives, for every option combination listed" },
  { property: "P17", level: "model_checking", technique: "exhaustive enumeration of grammars and mistyped token lists up to a bound, executed on the real parsers with every did-you-mean hint judged against the grammar's own name sets", note: "every option or command name within an edit of a real one, for every enumerated grammar and position" },
  { property: "P18", level: "model_checking", technique: "explicit enumeration of ISO-8601 compositions, boundary values and single mutations, replayed on the real temporal parsers against Temporal itself plus independent calendar arithmetic", note: "exhaustive over the product of boundary years, months, days, times, offsets, zones and calendar annotations listed in the evidence bounds" },
  { property: "P19", level: "model_checking", technique: "exhaustive enumeration of schema trees (all wrapper sequences up to a depth over all leaf kinds) times an input list, executed on the real adapters against the schema library's own asynchronous verdict", note: "every Zod 4, Zod 3 and Valibot schema of at most 2 (thorough 3) wrappers over 20+ leaves; every Standard Schema result kind and mode" },
  { property: "P20", level: "model_checking", technique: "explicit-state enumeration of every small directory state times every option combination and path spelling, executed on the real parser against a reference path-resolution model", note: "every state of two (thorough three) names over seven entry kinds, 135 option combinations, all listed spellings" },
  { property: "P21", level: "model_checking", technique: "explicit-state enumeration of repository states (HEAD, branches, tags, remotes, storage), executed on the real parsers against a reference model that is itself replayed against the git program", note: "every combination listed in the evidence over three (thorough five) branches, three (six) tags, five remote layouts, four HEAD states and four storage layouts" },
  { property: "P22", level: "model_checking", technique: "exhaustive enumeration of message terms (bounded length over an alphabet of term shapes and texts) times widths and colour settings, executed on the real formatter against a reference layout", note: "every message up to the bound is formatted by the real code" },
  { property: "P23", level: "model_checking", technique: "exhaustive enumeration of pages (parts, entries, sections) and usage trees times layout options and widths, executed on the real formatter against a reference layout", note: "every page and usage tree up to the bound is laid out by the real code" },
  { property: "P24", level: "model_checking", technique: "exhaustive enumeration of small documentation pages and messages rendered by two real roff formatters", note: "mandoc and groff on the pages of the real formatter, against an independent reading of the page" },
  { property: "P25", level: "model_checking", technique: "exhaustive enumeration of suggestions, descriptions, typed words and file directives executed in real shells", note: "the generated scripts run in real bash, zsh and fish; pwsh and nu encodings are split back by an independent reader" },
  { property: "P26", level: "model_checking", technique: "exhaustive enumeration of meta configurations, catalogue parsers and token lists, run through every entry point of the real facade, against an independent model of the classification", note: "" },
  { property: "P27", level: "model_checking", technique: "exhaustive enumeration of context lists, command-line outcomes, entry points and fault placements run against the real runners, with every callback log checked against an explicit protocol model", note: "" },
  { property: "P28", level: "model_checking", technique: "explicit-state enumeration of layer nestings x source availability, run on the real packages", note: "reference precedence evaluator" },
  { property: "P29", level: "model_checking", technique: "exhaustive enumeration of grammar derivations run on the real reader", note: "meaning composed from the derivation, not re-read" },
  { property: "P30", level: "model_checking", technique: "exhaustive fault/outcome enumeration plus stateless exploration of all interleavings of runs sharing a context", note: "reference outcome table" },
  { property: "P31", level: "model_checking", technique: "exhaustive enumeration of prompted layouts, availabilities, prompt outcomes and runners on the real code, compared with a reference log of prompts", note: "Every layout of up to three prompted fields x command line x environment x prompt outcome x runner; the prompt log and the outcome are compared with the reference." },
  { property: "P32", level: "model_checking", technique: "exhaustive enumeration of bounded runs of the real runners with instrumented derived-default resolvers against a reference resolution model", note: "every source kind x derived field pairs x resolver outcomes x containers x runners; arguments shown to the resolvers, call counts and outcome compared with the reference" },
  { property: "P33", level: "model_checking", technique: "exhaustive enumeration of call/settlement histories of real deferred values against a reference automaton, plus differential enumeration of programs and command lines against optional()", note: "all histories to the depth over one and two values, every attempt outcome; every wrapped parser x container x command line" },
  { property: "P34", level: "model_checking", technique: "exhaustive enumeration of runner variants x feature configurations x command lines on the real runners with recorded streams and exits, against a reference classification, with real child processes for a fixed subset", note: "entry points, stream/exit/argument injection, metadata placement, contexts; all variants must print the same; print functions over all option combinations" },
  { property: "P36", level: "model_checking", technique: "explicit enumeration of every assignment of outcomes to the lifecycle hooks and handler, and of every interleaving of two concurrent dispatches under a controlled scheduler, executed on the real dispatcher against a reference trace", note: "Lifecycle hooks (beforeEach/afterEach/onError, program and command scope) are run for every outcome assignment and compared with an independent nesting reference; two dispatches are interleaved exhaustively at every await." },
  { property: "P37", level: "model_checking", technique: "explicit enumeration of every logging configuration, every command line over a token alphabet up to a length bound, every sink setting and writer interleaving, executed on the real parsers and sinks against an independent reference", note: "All presets and single parsers times all token lists; all 64 stream resolvers times formatters times records; end-to-end runs of the created LogTape configuration over streams and files." },
  { property: "P35", level: "model_checking", technique: "explicit enumeration of every set of command files up to a bound (regular, unusual and linked names, extensions, entry names) and of every token sequence up to a bound over the resulting command trees, executed on the real discovery, static-map and generated-module paths against an independent mapping and dispatch reference", note: "Every file set over a fixed universe is written to a scratch directory and discovered, mapped statically and generated; command sets, duplicate rejection and dispatch (which handler runs, how often, with which value) are compared with an independent reference." },
];
