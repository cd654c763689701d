P = ("TLA+ specification (pushdown transducer of Parse) checked with TLC; texts enumerated by TLC and seeded random texts are "
     "parsed by the real code and every recorded execution is judged by TLC against the specification")
PN = ("Every judged execution is decided exactly by the specification: %s. Exhaustive over the token sequences TLC enumerates "
      "(see evidence), sampled beyond. Trusts TLC, the projection of library objects in driver/node.go.")
W = ("TLA+ specification (writer HJWrite.tla composed with the parser automaton) checked with TLC; documents built over every "
     "public route by the real code, written, parsed and written again, every recorded execution judged by TLC against the specification")
H = ("TLA+ specification (object heap of maps, arrays and values, HJContainer.tla) checked with TLC on every transition within bounds; "
     "the histories TLC enumerates and simulates are executed on the real code over every public route and the recorded state of "
     "every object after every step is judged by TLC as a trace of the same specification")
G = ("TLA+ specification (accessor table HJValue.tla: for every accessor and every content what it has to answer) whose laws TLC checks on every "
     "boundary; the contents TLC enumerates and seeded random contents are put into values, maps and arrays over every public route, "
     "all accessors of the real code are asked, and TLC judges every answer against the table")
R = ("TLA+ specification (HJConc.tla: clients whose calls take interleaved steps on a shared document, over private state only) model checked with "
     "TLC for all interleavings within bounds, against four wrong designs as negative controls; goroutines use the real library in the "
     "call orders TLC enumerates, freely under the race detector, and with a possible switch before every statement of the library; TLC "
     "judges every recorded result against the specification")
NOTES = {
    "C01": (P, PN % "one of map/errors, no panic, no hang, same result again, results independent"),
    "C02": (P, PN % "accepted texts give exactly the tree the transducer built"),
    "C03": (P, PN % "texts the automaton rejects give errors and no map"),
    "C04": (P, PN % "integer literals are stored as the narrowest type with exactly their digits"),
    "C05": (P, PN % "decimals lie in the rounding interval of the stored float, checked on decimal digit sequences"),
    "C06": (P, PN % "strings and keys equal the decoded text code point by code point"),
    "C07": (W, PN % "what the writer appended is derivable from the content by the nondeterministic writer of HJWrite.tla, read with the parser automaton of the specification (not with the library's own)"),
    "C08": (W, PN % "write; parse; write gives the same document and the identical text"),
    "C09": (H, PN % "keys, order, values, key list, value list, presence and null tests of every map after every operation"),
    "C10": (H, PN % "elements, length and outcome of every indexed operation after every operation"),
    "C11": (H, PN % "the content seen through every alias after every operation, at every depth; key lists handed out stay as they were"),
    "C12": (H, PN % "a clone has equal content at the time of cloning and from then on each side shows only its own changes"),
    "C13": (G, PN % "ten integer getters in pointer and value form on values and maps, and the bulk forms, against integers of all types and strings"),
    "C14": (G, PN % "the own getter of every content and all others, digit by digit for integers, by rounding interval for floats"),
    "C15": (G, PN % "all accessors on absent keys, nil pointers of 20 types, explicit and parsed nulls, and on content that merely looks empty"),
    "C16": (G, PN % "all predicates, the type name and equality with texts on every kind of content"),
    "C17": (G, PN % "28 bulk reads on arrays and 17 through maps, of element mixtures with nulls and misplaced elements"),
    "C18": (R, "Every call in every recorded run equals what it returns alone and what the text and writer specifications say; no race report, the shared "
            "document unchanged. The interleavings of the real code are sampled (race detector: happens-before, so most schedules of the executed paths are covered by one run)."),
    "C19": (G, PN % "every operation returns, whatever the content and the argument; graphs of containers (HJCycle.tla) written, cloned and walked; ten known findings on containers inside themselves"),
    "C20": (G, PN % "times and time texts: calendar and precision are computed in the specification"),
    "C21": (G, PN % "text of every scalar in raw, pointer, value and wrapped form; floats by rounding interval"),
    "C22": (H, PN % "the content of every object a client holds after every operation, with queries, failed operations and failed parses interleaved"),
}
