package main

// What each check's evidence says about the rule it applied and what it takes
// for granted.

type propDoc struct {
	rule   string
	assume []string
}

const (
	aTool    = "the Go compiler, go/types, go/ssa and the models of the standard library and runtime functions the repository uses are right"
	aLayout  = "amd64 memory layout; encodings are shorter than 2^56 bytes"
	aTree    = "messages are tree shaped (no pointer is shared between fields, no cycles) and the caller does not change them during a call"
	aFamily  = "the code for a field is chosen per field, so every field kind in every position, alone and in the analysed combinations, stands for larger messages"
	aInputs  = "all inputs and all previous field contents are symbolic; loops over them are summarised by invariants that are checked to be inductive"
	aOwn     = "undecided: an analysis that cannot be completed is reported as a violation only by the property that owns it; elsewhere it is listed as undecided"
	aGen     = "names, comments and numbers are opaque to the generator except where it inspects them; protogen and protoreflect behave as documented; extensions are not modelled"
	aSync    = "sync.Map, syncx.Map, sync.Pool, sync.Mutex, sync.Once and sync/atomic are linearisable and order memory as documented"
	aRuntime = "the toolchain in the sandbox is the one whose runtime the repository is linked with"
)

var encAssume = []string{aTool, aLayout, aTree, aFamily, aOwn}
var decAssume = []string{aTool, aLayout, aTree, aFamily, aInputs, aOwn}
var genAssume = []string{aTool, aGen, aOwn}

const (
	rEnc = "Size and Marshal are followed through the SSA of /repo from their entry points for each message type of the family, with symbolic field contents; the byte sequence (or number) on every path is compared with the wire-format specification in encspec.go. "
	rDec = "Unmarshal is followed through the SSA of /repo for each message type of the family, with a symbolic input and symbolic previous contents; record loops are summarised, and every path through one iteration is compared with the wire-format specification in decspec.go. "
	rGen = "The SSA of the generator is partially evaluated on abstract schemas; the emitted file is type-checked. "
)

var propInfo = map[string]propDoc{
	"C01": {rEnc + "Obligation: Size equals the length of Marshal's output as a linear form, and every length prefix equals the length of the bytes it announces.", encAssume},
	"C02": {"Every function of the repository with the signature of a varint writer, reader or sizer is followed over a complete partition of its inputs by bit length or terminator position and compared bit by bit (GF(2)-affine vectors) with the base-128 format; zigzag likewise through the fields that use it.", []string{aTool, aLayout, aOwn}},
	"C03": {rEnc + "Obligation: key and payload of every record are the bits the schema type prescribes.", encAssume},
	"C04": {rEnc + "Obligation: the condition under which a record is written is exactly the field's presence condition.", encAssume},
	"C05": {rDec + "Obligation: the final memory of the field holds the bits the record denotes, and the cursor advances by the record's extent.", decAssume},
	"C06": {rDec + "Obligation: every read of input memory lies inside the current record's bytes, no path panics, and nothing decoded depends on bytes outside them.", decAssume},
	"C07": {rDec + "Obligation: a path on which a record is truncated, over-long or left over returns a non-nil error; a path returning nil has consumed whole records only.", decAssume},
	"C08": {rDec + "Obligation: for a field number the type does not declare, one iteration advances by the extent of the record's wire type and writes no message memory.", decAssume},
	"C09": {rDec + "Obligation: a declared number with another wire type ends in an error and leaves the field's memory unchanged.", decAssume},
	"C10": {rDec + "Obligation: nothing reachable from the message after the call points into the input, and no instruction writes it.", decAssume},
	"C11": {rEnc + "Obligation: no write to memory reachable from the message, and the returned slice's memory is allocated in this call and referenced by nothing else.", encAssume},
	"C12": {rDec + "Obligation: an element is appended at index len, decoded from zero, older elements keep their bytes when the array is replaced, and a nested message is merged in place.", decAssume},
	"C13": {rDec + rEnc + "Obligation: each entry record sets exactly its key to its value (zero when absent), independent of the scratch memory's previous contents on every path including failing ones; each entry is written once.", decAssume},
	"C14": {rEnc + rDec + "Fields and types sharing a Go type under other tags are analysed together and after one another, with the caches the earlier use left behind; the obligations are those of C01, C03-C05.", decAssume},
	"C15": {"Type preparation is followed for each type of the family (recursive ones included) and at each publication to a shared container the object graph that becomes visible must be complete; later writes to it are violations, also after a preparation that panicked.", []string{aTool, aSync, aFamily, aOwn}},
	"C16": {"Size, Marshal and Unmarshal are followed for a catalogue of unsupported Go types and malformed tags in every position; every path must refuse the type before reading or writing message or input, on first and on later uses.", []string{aTool, "the catalogue has one representative per Go kind and per form of malformed tag", aOwn}},
	"C17": {"The entry points are followed for every class of dynamic argument (nil, every kind by value, pointers to every kind, nil pointers); the outcome must be the documented error, panic or empty result, without a dereference.", []string{aTool, aOwn}},
	"C18": {rDec + "Obligation: the error on every failing path carries the record's number and wire type as read, and unwraps to the cause.", decAssume},
	"C19": {"The generic Option code is followed at each instantiation with symbolic values; results and memory effects of every method are compared with the optional they stand for.", []string{aTool, aOwn}},
	"C20": {rEnc + rDec + "Obligation: memory of untagged and unexported fields and of neighbours is neither read into the output nor written.", decAssume},
	"C21": {rGen + "The Go type and tag of each field are handed to the analysis of the runtime with the schema's own encoding as the oracle.", append([]string{aTree, aLayout}, genAssume...)},
	"C22": {rDec + "Obligation: every iteration of a record loop advances the cursor, embedded decoding gets fewer bytes, and every allocation has a size bounded by the input, the field or a constant. The call graph below Unmarshal is searched for recursion over the input without a depth limit.", decAssume},
	"C23": {"Every function linked to the runtime has the signature and ABI of the toolchain's own declaration; every struct laid over runtime memory has its size, offsets and pointer words; no integer computed from a pointer is turned back into one in another operation; every access of the abstract interpretation stays inside its object and uses memory allocated with a type of the same pointer words.", []string{aTool, aRuntime, aLayout, aOwn}},
	"C24": {rGen + "Fields, names, tags and declarations are compared with the schema one to one.", genAssume},
	"C27": {"Every access to memory shared between calls on the analysed paths of preparation, encoding and decoding must be to memory that was complete when published and is never written later, or under a lock (or atomics) common to all of its accesses; pooled memory is not used after its return, no lock is held when a call or panic leaves the library; for pairs of message types, a second call is started before each synchronisation step of a first and its synchronising reads may see any later step, with the sequential specification as the oracle.", []string{aTool, aSync, "interference is explored between two calls at the granularity of synchronisation operations; data races at a finer grain are excluded by the access rules", aOwn}},
	"C28": {rGen + "The emitted accessors are then partially evaluated themselves: on a nil message, with no member set and with each member of the oneof set; the results are compared with the member's value, its zero value or the stored wrapper, and the set of types assignable to the oneof's interface with its members.", genAssume},
	"C29": {rGen + "Each enum must be a type of underlying int32 and each value a constant of it with the schema's number (negative, aliased and extreme numbers included).", genAssume},
	"C30": {rGen + "No emitted message type may be comparable.", genAssume},
	"C31": {"The plugin's main is followed for a request of three files of which two are to be generated: those two and no other must be emitted, each must parse, type-check and be marked as generated code, and the proto3-optional feature must be announced. " + rGen, genAssume},
	"C32": {rGen + "The comments of each emitted declaration are compared with the leading and trailing comments and the deprecated option of the schema element it stands for; other declarations carry neither.", genAssume},
	"C33": {rGen + "Files with public, plain, weak, same-package and transitive imports are followed through the forwarding code (the parsed imported file is represented by its syntax tree); the emitted package's scope is compared with the imported packages' scopes.", genAssume},
	"C34": {rGen + "Pairs of files are generated in both orders, twice, and with every map iterated forwards and backwards; the text of each file must be the same in all of them. Values that come from the clock, the environment, random sources or addresses are marked, and a marked value that reaches the text or decides what is emitted is a violation.", genAssume},
}
