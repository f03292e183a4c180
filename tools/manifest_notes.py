DEF = "TLA+ specification (DataSetModel), TLC exhaustive exploration replayed on the code, trace validation by TLC"
DEFNOTE = ("Every definition reachable within small constants (2 names per kind, one invalid name, 2-3 sizes) with every call on it is "
           "replayed on the real code, plus seeded random histories over larger alphabets; every event is judged by TLC against the specification. "
           "Trusts the compiler, TLC and the harness's use of the getters; larger histories are sampled.")
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C24"]:
    NOTES[p] = (DEF, "model_checking", DEFNOTE)
IO = "TLA+ specification (NC3, Format, Parse, TraceIO): TLC explores the models, their behaviours are replayed on the code, every recorded trace is judged by TLC"
_N = {
 "C07": "The model MC_Format (encoding, layout and meaning of bytes agree) is exhaustive within small constants; the code is run on definitions reachable in MC_DataSet, random ones, large headers and sparse files with offsets around 2^31 and 2^32, and the bytes are compared with the specification's encoding.",
 "C08": "Layout partition checked exhaustively on NC3 and MC_Format within small constants; the code's header and the places of its data are compared with the specification's layout, also around 2^31 and 2^32 on sparse files. Larger definitions are sampled.",
 "C09": "Definitions reachable in MC_DataSet (small constants), random ones and headers larger than the reader's buffer are written with both versions and re-opened.",
 "C10": "NC3 is explored exhaustively within small constants and its behaviours replayed with all six types and special bit patterns; random sessions sample larger definitions.",
 "C11": "NC3 proves within small constants that the closed file is a function of the last values; every sequence of writes up to a small length on small definitions is replayed on the code, longer ones are sampled.",
 "C12": "NC3 within small constants; every set of written chunks of small definitions is reached by the replayed behaviours, larger ones are sampled.",
 "C13": "Every kind of illegal write after every short history in NC3 (replayed), random histories with most writes illegal.",
 "C14": "NC3's life cycles (creation, opening, refused and repeated definitions, following sessions) explored exhaustively within small constants, a large sample replayed, plus random histories over two paths.",
 "C15": "Sessions abandoned at every point of NC3's behaviours, with readers opened during the session; 'the process stops' is simulated by forgetting the writer between two calls, and by freezing the storage at every transfer of sampled sessions (before it or after half of it).",
 "C16": "Random hand-built files (gaps, permuted offsets, arbitrary stored sizes, tagged empty lists, indeterminate counts) judged by the specification's parser. Known finding F12.",
 "C17": "Every byte and every 4-byte field of small headers with boundary values, random mutations; each is classified by the specification's parser, run in a child process with memory and time limits.",
 "C18": "Every prefix of hand-built and written files is opened and read; the specification parses each prefix. Files with an indeterminate record count are excluded.",
 "C19": "Sequences of reads in NC3 (replayed) and random ones, on whole and cut files.",
 "C20": "NC3 with a storage limit at any point; every limit on small sessions and sampled limits on larger ones, through RLIMIT_FSIZE; a failure at every transfer of sampled sessions and readers (interposed read and write); the model Transfer says what may follow.",
 "C21": "The model Transfer is explored exhaustively; the schedules it reaches and random ones are imposed on the code's transfers (interposed read, write), and every call is compared with the same call without them.",
 "C22": "Random sessions and readers, each alone and then interleaved; each call of the interleaving is compared with the same call alone, and all of them with the specification.",
 "C25": "Definitions that break rules, every byte and field of small headers with boundary values, mutations with several defects, every prefix (also with a damaged end), headers larger than the reader's buffer: the specification's parser names the first construct that is wrong, the rules the definition breaks, or that the header is cut. MC_Format: every prefix is cut, and a changed word blames nothing before it.",
 "C23": "Files of this crate and foreign files are copied once or twice through the library; the specification parses both files and compares them.",
}
for p in _N:
    NOTES[p] = (IO, "model_checking", _N[p] + " Trusts the compiler, the operating system and TLC.")
