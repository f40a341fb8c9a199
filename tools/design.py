import json,os
D={}
def d(i,**k): D[i]=k
d("P01",spec="the documented spellings of flags, Boolean options, negatable options, valued options and arguments (`--x v`, `--x=v`, `/x:v`, `-abc` bundles, `--`)",
 enum="flat programs: every set of up to 3 primitives over short, long, slash and plus names in an object, times every list of up to 3 (thorough: 4) tokens of the program's own alphabet (names, joined, bundled, cut-off and foreign spellings, `--`, values)",
 oracle="`lib/ref.mjs`, a separate small-step interpreter of command lines written from the documentation, run in the same order of priorities")
d("P02",spec="objects share tokens by kind; tuples, seq, concat, merge, group, commands, optional, default, repeated and mapped parts compose",
 enum="all nestings of combinators up to depth 2 (3) over small parts, times every token list up to 3 (4)",
 oracle="`lib/ref.mjs` (denotational for values, small-step for token routing)")
d("P03",spec="passThrough() in its three formats forwards each unrecognised token once and in order",
 enum="every program pairing a pass-through of each format with options, arguments and commands, times all token lists up to 4 or 3 by alphabet size",
 oracle="`lib/ref.mjs` and a conservation monitor: consumed + forwarded = the line, in order")
d("P04",spec="an asynchronous program returns what its synchronous twin returns, whatever order its answers arrive in",
 enum="catalogue and nested programs with each subset of value parsers made asynchronous; `lib/sched.mjs` is a controlled scheduler that gates every answer and enumerates, depth first with replay, every order of releasing pending answers (parse and suggest)",
 oracle="the synchronous twin")
d("P05",spec="calls on a parser object never change it",
 enum="for each program every sequence of 2-3 operations (parse, suggest, usage, help, format, runs with and without contexts) out of 5-14 with pairwise different results, on one object; all inputs frozen",
 oracle="the same operation on a fresh parser")
d("P06",spec="or(), longestMatch() and conditional() choose one branch, deterministically, and never mix",
 enum="ordered pairs and triples of branch kinds in each combinator, bare and inside object, tuple, merge, optional, command; all token lists up to the bound",
 oracle="the branches run alone on the same tokens (first / longest accepting branch)")
d("P07",spec="optional, withDefault, multiple, nonEmpty, map and group: absent gives the fallback, invalid gives an error, present gives the value; repetition counts are enforced",
 enum="every stack of up to 3 wrappers over every kind of part, three positions, every sequence of absent/valid/invalid occurrences",
 oracle="a table-driven reference per wrapper")
d("P08",spec="a derived option is judged against the final value of its source, independent of order",
 enum="every layout (one object, nested, merged, concatenated, branches, commands) of one or two sources and derived options, wrappers, defaults, asynchrony, and every order of the options on the line",
 oracle="`lib/deps.mjs`: the direct statement \"validate with the source's final value\"")
d("P09",spec="completion is sound and complete with respect to the parser",
 enum="every program of the nested grammar catalogue, every viable partial command line up to the bound, every prefix of every next word",
 oracle="the parser itself: exhaustive search over continuations decides which words can still lead to acceptance")
d("P10",spec="completion of derived options uses the source value typed so far",enum="all dependency layouts of P08, every order of typed options, every cursor position",oracle="`lib/deps.mjs`")
d("P11",spec="hidden settings remove an item from usage, help, completion and hints as documented and never change parsing",
 enum="every assignment of the visibility settings to a part and to up to two wrappers around it, every surface, every token list of the program",oracle="the same program without settings, minus the hidden items")
d("P12",spec="the usage line's language is the parser's language; help entries are the reachable parts",
 enum="program trees of up to 3 items; the usage tree is expanded to all words it derives up to a bound and all lines up to the bound are parsed",oracle="language equality in both directions, the parser as acceptor")
d("P13",spec="ambiguous or malformed definitions are rejected when built, others are accepted",
 enum="every ordered pair and triple of parts with shared or distinct names in every combinator; every short name over an alphabet of special characters",oracle="a conflict relation computed from the program tree")
for i,n in (("P14","integer, float, port, byte size, range, percentage and related numeric parsers: exact syntax, exact range, exact value, format() reads back"),("P15","IP, CIDR, host name, e-mail, URL, socket address, MAC, domain and port-range parsers"),("P16","string, choice, UUID, locale, JSON, colour, semver and the other text parsers"),("P18","Temporal value parsers")):
    d(i,spec=n,enum="per configuration: all strings up to a length over the parser's alphabet, all compositions of boundary components, and every single-edit neighbour of each representative",oracle="independent hand-written recognisers"+(" and own calendar arithmetic, Temporal for the rest" if i=="P18" else " with exact (BigInt) arithmetic" if i=="P14" else ""))
d("P17",spec="hints are close, visible, ranked and bounded",enum="(a) every pair of words over 2-3 letters up to length 7/5; (b) every candidate list and setting within a bound; (c) every near-miss of every name at every point of a catalogue of programs",oracle="(a) shortest paths in the explicit graph of single edits (breadth-first search); (b), (c) a direct filter and ranking")
d("P19",spec="Zod, Valibot and Standard Schema adapters accept what the schema accepts",enum="all schema trees up to 2 wrappers over every leaf kind, times 32 inputs, synchronous and asynchronous",oracle="the schema library on the same string")
d("P20",spec="path() agrees with the file system and changes nothing",enum="every state of a two-name tree (absent, file, directory, non-empty directory, links, dangling link), 135 configurations, every spelling of the paths",oracle="a reference path resolution over the model tree; the real tree is compared before and after")
d("P21",spec="git parsers agree with the repository",enum="HEAD states times branches, tags, remotes and packed/loose storage in scratch repositories; every reference name, id, abbreviation and near-miss",oracle="a model of refs and objects, itself compared with the git program")
d("P22",spec="formatMessage() loses nothing and respects the width",enum="every message of up to N terms from a 36-term alphabet, every option combination, 7 widths; display width of every code point",oracle="reference renderer, a wrapping checker, and the Unicode East-Asian-width table (`lib/eaw.json`)")
d("P23",spec="help pages keep all content, aligned, at every width",enum="documentation pages assembled from parts, sections and messages; all layout options; 7 widths; all usage trees up to a bound",oracle="a reference layout")
d("P24",spec="man pages show text verbatim",enum="every text up to 3 characters over roff's special characters in 51 text positions, plus generated programs",oracle="mandoc and groff render the page; the rendered text must be the texts in order")
d("P25",spec="completion scripts deliver and never execute",enum="every text up to length over 33 shell-special characters as suggestion, description, typed word, argument, file name; all encodings",oracle="a real bash, zsh and fish load the script; what they offer is read back")
d("P26",spec="help, version and completion are served exactly when unclaimed",enum="every meta configuration, 13 catalogue parsers, every token list up to 3",oracle="classification reference; exactly-one-outcome monitor")
d("P27",spec="the two-phase context protocol",enum="up to 3 contexts of every kind, all placements of up to 3 faults, every entry point and outcome",oracle="a reference protocol producing the expected call log")
d("P28",spec="precedence of command line, environment, configuration, derived and static values",enum="all nestings of up to 3 layers, every availability, every command line, layouts and runners",oracle="outermost-first reference resolution")
d("P29",spec="dotenv meaning",enum="all files of up to 3 statements, values of up to 3 pieces in every quoting and decoration",oracle="meaning by construction: the generator knows what each piece means")
d("P30",spec="configuration loading",enum="every loader/file outcome, schema, binding, line and runner; then every interleaving of 2-3 runs sharing a context",oracle="reference outcome per run")
d("P31",spec="prompting",enum="up to 3 prompted fields in every container, subsets on the line, availabilities, prompt outcomes and latencies, runners",oracle="reference log of prompts and outcome")
d("P32",spec="derived defaults",enum="every source field, pairs of derived fields, resolver outcomes, wrappers, orders, lines and runners",oracle="reference values and call counts")
d("P33",spec="deferred values",enum="all histories of up to 6 calls and settlements over one or two deferred values; all programs with deferred fields",oracle="a reference automaton (explicit states)")
d("P34",spec="process runs",enum="runner variants times settings times a catalogue of lines, in process with recorded streams; a fixed sub-product again in real child processes",oracle="reference class (stream, code, order) and text equality between variants")
d("P35",spec="discovery and dispatch",enum="every set of up to 3 (4) names out of 24 plus up to 2 (3) of 24 odd names, 7 extension lists, 4 entry settings, 8 bases, 4 export shapes; all 256 link sets; every command tree of up to 3 (4) paths with 6 parser kinds and every line up to 3 (4) words",oracle="independent path derivation; deepest-match dispatch; generated modules are written and imported")
d("P36",spec="lifecycle hooks",enum="every assignment of outcomes to six hooks and the handler; two dispatches under every interleaving",oracle="a reference trace")
d("P37",spec="logging options",enum="39 configurations in 5 embeddings, every line up to 3 (4) tokens; all 64 level-to-stream maps, formatters and records; end-to-end LogTape runs; every interleaving of writers to three sinks",oracle="a reference command-line scanner and level arithmetic")
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import subprocess,re
src=open('/verif/tools/properties.mjs').read()
why={m[0]:m[1] for m in re.findall(r'id: "(P\d+)".*?why: "(.*?)"',src,re.S)}
out=[]
for p in props:
    i=p['id']; x=D[i]; ev='/verif/evidence/%s.json'%i; cost=''
    if os.path.exists(ev):
        e=json.load(open(ev))
        c=e['coverage']; cost=f"about {c.get('evaluations',0):,} executions in the quick tier"
    out.append(f"### {i} {p['title']}\n\n*Specified:* {x['spec']}.\n*Enumerated:* {x['enum']}.\n*Oracle:* {x['oracle']}.\n*Cost:* {cost or 'see evidence'}.\n*Why tests cannot:* {why.get(i,'')}\n")
body="\n".join(out)
head=open('/verif/tools/design/head.md').read(); tail=open('/verif/tools/design/tail.md').read()
open('/verif/DESIGN.md','w').write(head+"\n## The properties\n\n"+body+"\n"+tail)
s=open('/verif/DESIGN.md').read()
k=json.load(open('/verif/known_findings.json'))
s=s.replace('@FIXED@',"\n".join('* '+f.replace('fixed: ','') for f in k['fixed']))
from collections import defaultdict
g=defaultdict(list)
for f in k['findings']: g[f['property']].append(f['what'])
s=s.replace('@KNOWN@',"\n".join(f"* {p}: "+"; ".join(dict.fromkeys(w)) for p,w in sorted(g.items())))
rows=[]
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught_by',m['property'])} |")
s=s.replace('@SEEDS@',"| id | property | needs | caught by |\n| --- | --- | --- | --- |\n"+"\n".join(rows))
open('/verif/DESIGN.md','w').write(s)
