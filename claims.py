CLAIMED = {
 "C05": "bytes.Reader and bytes.Buffer enter as assumed contracts of the standard library.",
 "C06": "Isolation is proved as frame conditions: what a handle may change is its own, and opening hands out new storage only.",
 "C07": "gobuffalo/here enters as a function of module and name; for MkdirAll and Create names are assumed to round-trip through their printed form (\"plain\" names); path.Clean, Dir, Base and Split enter as axioms.",
 "C08": "Callbacks are assumed not to change the filesystem that is being walked.",
 "C09": "The children of a directory enter as an enumeration in path order (axioms over finite tables); names are assumed to round-trip through their printed form (\"plain\" names).",
 "C10": "The operations of package os enter as opaque functions of arguments and history; what an operation of the system does below a location (symbolic links) is the system's.",
 "C11": "Operations of package os enter as opaque functions; names are assumed to round-trip through their printed form (\"plain\" names).",
 "C12": "filepath.Walk enters as an iteration over arbitrary files below its root; package directories are assumed absolute and cleaned.",
 "C02": "encoding/json enters as a contract: it carries structs field by field (that every field of the types involved has a name of its own and none has an encoding of its own but ModTime is checked); texts are functions of their entries; paths are assumed to be written differently if they differ.",
 "C04": "Reading open files, os.Open, filepath.Walk and the information of package directories enter as opaque functions of arguments and history of the disk.",
 "C17": "os.Stat and filepath.Walk enter as opaque functions of arguments and history of the disk; sort.Slice as an assumed contract; declarations of other types than this module's are assumed to satisfy the contract of their interface.",
 "C03": "The disk is assumed to stay as it is while packaging; package os, the writer, encoding/json and the codecs enter as contracts; different paths are assumed to be written differently; which files the declarations stand for is C17.",
 "C16": "go/ast.Walk is assumed to call the visitor with the nodes of the tree, below a node exactly as long as it is told to go on; trees come from go/parser (no missing parts); strconv.Unquote, go/token positions and gobuffalo/here enter as functions. Recursion through constants is bounded by the set of those seen (termination itself isn't proved).",
 "C18": "Package os enters as contracts (a write that reports no error is complete, removing acts on the named place); the disk is assumed to stay as it is while packaging; a crash of the process itself is not covered; the payload's meaning is C01 to C03, what is declared is C16 and C17.",
 "C20": "Package flag enters as a contract (what is left after the flags is a function of the arguments; an invalid flag ends the process); fmt prints a path by its String method; encoding/json encodes the value it is given; the disk is assumed to stay as it is between listing and packaging; stat and serve assume of implementations that what is returned without an error isn't nil, and of net/http that serving ends with an error; main passes the error on to log.Fatal (not under contract).",
 "C21": "gobuffalo/here enters as a function of module and name; path.Clean enters as axioms. The last sentence (what is packaged under a name is what the name opens) is decided by the bounded comparison only; its parts are proved as C16 (where a declared name points), C17, C03 (embedded under that name) and C10 (where a name opens).",
 "C13": "The wrapped implementations are opaque: any results, as functions of arguments and a history token.",
 "C14": "Mutual exclusion is proved as a lock discipline (every access of the implementation in force holds the lock, every path releases it); here.Current is assumed.",
 "C15": "encoding/json and time formatting enter as axioms (RFC 3339 with nanoseconds is lossless for years 0 to 9999 and zone offsets of whole minutes).",
 "C01": "The gzip and hex codecs of the standard library enter as axioms (inverse functions; damaged streams are errors).",
 "C19": "sync.Map and sync.Once enter as assumed contracts (linearizable map, exactly one execution); mutual exclusion of the first use is a proved access discipline (the data field is touched only inside the once or after it).",
}
