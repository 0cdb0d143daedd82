"""Which analysis decides which property, and the rule it applies."""
import checks_api as A
import checks_proj as P
import checks_res as R
import checks_events as V
import checks_io as IO
import checks_scalar as S
import checks_json as J
import checks_text as T
import checks_block as B
import checks_view as W
import checks_fx as X
import checks_err as ER
import checks_panic as PA
import checks_whole as WH
import checks_report as RP
import checks_new as NW
import checks_eq as Q

BASE = ['the models of std/serde_json/hashlink in sa/models.py and sa/text.py are right']

CHECKS = {
    'C01': dict(fns=[PA.c01], floor=900, assume=BASE + ['serde_json, regex, chrono and the block cipher do not panic', 'counters stay below 2^32 and recursion fits the stack (excluded by the property)',
                                                      'the enumerated block lists and layouts (all link and parent relations over up to two blocks and three views, any contents) stand for longer ones'],
                rule='every reader is interpreted on an arbitrary text (and on texts of up to five lines) and every conversion on an arbitrary parsed value; a slice, index, unwrap, removal, checked arithmetic or panic whose failing branch is '
                     'feasible on a path, with a text that takes that path, is a violation; every construct that can panic in a function reachable from the readers lies in a function that was interpreted'),
    'C02': dict(fns=[IO.c02], floor=60, assume=BASE + ['Cbc<Aes128, Pkcs7> of block-modes/aes is a correct cipher: decrypt inverts encrypt for equal key and IV'],
                rule='both directions are terms over one and the same cipher, key and IV, applied to the whole input; every path of the file helpers reads the given file once, '
                     'writes only the target, and returns failures; each of the six parts is the text of its own decrypted bytes'),
    'C03': dict(fns=[IO.c03], floor=60, assume=BASE, rule='with the part parsers as uninterpreted functions, every slot of the result is the term of its own part, and every failure is the error variant of the failing part'),
    'C04': dict(fns=[T.c04], floor=450, assume=BASE + ['names are non-empty single-line identifiers without the delimiters of the format', 'the name of a screen is its key', 'the words that mark the pools of a screen are not ids of block containers',
                                                     'the first pool that is present is present in every screen (every choice of which of the six pools there are is decided)'],
                rule='parse(reconstruct(x)) = x on every path, with x symbolic: the written text is followed line by line through the parser, sections of any number of items being summarised by loop invariants over provenance'),
    'C05': dict(fns=[J.c05], floor=500, assume=BASE + ['serde_json implements the serde data model'],
                rule='the Serialize and Deserialize code of every record, derived or written by hand, is run over the serde data model: the keys written are exactly those of the frozen Sketchware table and '
                     'carry the field of that key, reading gives back every field, any key that is always written is required on reading, and enumeration codes are those of the table in both directions'),
    'C06': dict(fns=[J.c06], floor=200, assume=BASE + ['serde_json implements the serde data model', 'chrono converts a timestamp into the date parts of that second and back'],
                rule='the stored form of every such field, followed down to the scalar that stands in the text, is the one of the table, and reading it through the record gives the same value on every path; wrong texts are rejected'),
    'C07': dict(fns=[P.c07, WH.c07w], floor=2500, assume=BASE + ['names within one list are pairwise distinct'],
                rule='on every path of the two whole-project conversions every field of the result is, by provenance, the field of the same meaning of the input; '
                     'switches are read as on exactly for Y and rejected unless Y or N'),
    'C11': dict(fns=[V.c11, WH.c11w], floor=1000, assume=BASE + ['names within one list are pairwise distinct'],
                rule='event kinds 1/2/3 both ways; the container term under which code is stored equals the term under which it is looked up, on every path; '
                     'the implicit onCreate event appears once and is not stored'),
    'C14': dict(fns=[B.c14], floor=5000, assume=BASE + ['a list of blocks is shorter than 2^31', 'the shapes (sequences of blocks with argument blocks and substacks, nested up to four deep) stand for all: what a block is depends on its neighbours only through the id counter'],
                rule='writer and reader are interpreted on every shape of the catalogue with symbolic block contents: the ids of the written list are distinct and increasing, every link is the id of the block it stands for, '
                     'reading any encoding of the shape gives the shape back, and every fault in a link, id, spec or type is an error however the block is reached'),
    'C15': dict(fns=[B.c15], floor=1800, assume=BASE, rule='every reader, interpreted on every kind of word, every kind of argument (present, missing, wrong, reference) and every order of up to three words, gives the items of the rule; '
                'both readers are held to the same table; taking arguments out, writing the spec and reading it again are inverse on provenance'),
    'C22': dict(fns=[B.c22], floor=3000, assume=BASE, rule='on every link graph of the catalogue (all graphs of one block, of two blocks with two links each, of three blocks with one link each) the reader ends, and it ends with an error exactly if a block is asked for twice'),
    'C09': dict(fns=[W.c09], floor=4500, assume=BASE + ['the trees of the catalogue stand for all', 'ids within one layout are pairwise distinct', 'a view is listed before its children'],
                rule='the writer and the reader of view trees are interpreted on every tree of the catalogue with symbolic views: each view of the tree comes out once, at its place, with its parent and the attributes of the same name, '
                     'by provenance; reading gives the tree back for the view kinds of the raw views, and a missing parent is an error'),
    'C16': dict(fns=[R.c16], floor=200, assume=BASE, rule='in every world of {id in none/images/sounds/fonts} x {file kind} x {exists} x {kind}, the final value of the three '
                'collections and the result are those the registry promises, on every path'),
    'C17': dict(fns=[R.c17, WH.c17w], floor=300, assume=BASE + ['names within one list are pairwise distinct'],
                rule='every path of the sorting and of the conversions puts a file into exactly the collection of its kind under its own name; a missing file or unknown folder is rejected'),
    'C18': dict(fns=[ER.c18], floor=800, assume=BASE + ['writing a string-keyed record as JSON does not fail', 'names are non-empty single-line identifiers without the delimiters of the format'],
                rule='with the steps of every operation left open (each may succeed or fail with an unknown error): on every path on which a step failed the result is an error that contains the error of that step, '
                     'and no successful result depends on a guard that a step failed; texts with a broken structure and block lists with any fault are rejected'),
    'C20': dict(fns=[X.c20], floor=680, assume=['the call graph over the resolved program is complete: trait impls are called back by library code only for the types it is instantiated with', 'the models of sa/models.py for the order of passes'],
                rule='no public function reaches an iteration of a hash map (other than into the list of resource files), a clock, the environment, randomness (other than the ids of missing resource files), an address or global state; '
                     'every pass of a writer over a list it holds is in the order it is held in'),
    'C21': dict(fns=[X.c21], floor=640, assume=['the call graph over the resolved program is complete: trait impls are called back by library code only for the types it is instantiated with', 'effects of external crates are those of the listed names'],
                rule='every site of an effect (file, directory, environment, process, thread, network, terminal, clock, randomness, raw memory, mutable static) is reachable only from the public functions that are granted it'),
    'C08': dict(fns=[A.c08], floor=70, assume=BASE,
                rule='for every path of from_view / get_type_id / apply_values_to_view, the provenance of every written attribute is the attribute of the '
                     'same name, and the compositions read-after-write and write-after-read are the identity on every path'),
    'C10': dict(fns=[A.c10], floor=90, assume=BASE, rule='read-after-write and write-after-read of component kinds are the identity on every path; numbers as in the frozen Sketchware table'),
    'C12': dict(fns=[A.c12], floor=25, assume=BASE, rule='type -> (code, name) -> type and code -> type -> code are the identity on every path'),
    'C13': dict(fns=[A.c13], floor=40, assume=BASE, rule='category -> color -> category and color -> category -> color are the identity on every path'),
    'C19': dict(fns=[S.c19], floor=200, assume=BASE, rule='bit provenance: every bit of every channel accessor, constructor and conversion comes from the bit of that channel'),
    'C23': dict(fns=[S.c23], floor=50, assume=BASE, rule='the function, run on every word of up to five symbols over {underscore, other character}, gives what the rule gives; a transducer with its memory (one flag) is decided by words of that length'),
    'C27': dict(fns=[RP.c27], floor=1500, assume=BASE + ['names and item texts are given (the code only moves them), the faults are at one place at a time'],
                rule='every reader is followed on texts in which one item fails, every writer on values one item of which fails, every conversion on projects with one fault: '
                     'the fields of the error that comes out are those of that item; the message of every error shows its naming fields and its source is its cause'),
    'C28': dict(fns=[NW.c28], floor=1900, assume=BASE,
                rule='every constructor and Default is run on symbolic arguments and each field compared with the table; every flag on all 256 gravity values; the content builder on every sequence of up to three items'),
    'C29': dict(fns=[Q.c29], floor=800, assume=BASE + ['an implementation the compiler derives compares, copies and hashes every field'],
                rule='every implementation of equality, clone and hash in the crate is the compiler\'s own, or, if written by hand, is run on pairs of values that differ in one part (never equal), on a value with itself (equal), and the clone compared with its original'),
}

NA = {
    'C24': 'Byte equality with files another program wrote depends on that program\'s JSON layout and number text, which no source in this repository determines; a static argument has nothing to decide it from.',
    'C25': 'serde_json turns number text into u64/i64/f32/f64 and prints it back; whether the decimal text survives is a property of float parsing and printing over all runtime values, out of reach of a sound static argument here (and false for some texts, e.g. 1e0).',
    'C26': 'Stack use depends on the runtime nesting depth, which the input chooses; the recursion is unbounded by design and no static bound exists.',
}
