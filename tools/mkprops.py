#!/usr/bin/env python3
# Writes ../properties.jsonl. Kept as code so the catalogue is easy to edit.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
I=['inputs']
p('C01','Malformed project data is reported as an error, never as a panic',
 "Parsing any of the decrypted project files (project, file, library, resource, view, logic and every item of them, including block specs with their arguments), decrypting arbitrary bytes, and converting a parsed project's block containers and layouts into the API model returns a value or an error for every input text; it never panics through indexing, slicing, unwrapping or removing from an empty list. (Counters that would overflow after more than 2^32 lines and stack exhaustion on deeply nested input are not meant.)",
 I,'every input text / byte string given to a public parsing or decrypting entry point',
 'the tests feed a dozen well-formed fragments; a malformed header, a short date or a non-ASCII line needs inputs nobody wrote down',
 ['src/parser/mod.rs','src/parser/view.rs','src/parser/logic.rs','src/parser/serde_util.rs','src/api/block.rs','src/lib.rs'],
 [('guards before slicing/unwrapping (starts_with, is_none, is_empty, get, strip_prefix)','src/parser/*.rs, src/api/block.rs')])
p('C02','Encryption and decryption are inverse and touch only the given files',
 "Encrypting any bytes and decrypting the result gives the same bytes back, because both directions use the same cipher, mode, padding, key and IV, the ones Sketchware uses; the file helpers apply the same transformation to the full content of the file they were given, and encrypting to a file writes the ciphertext to the given output path, or back to the input file when none is given, and nowhere else. Loading an encrypted project decrypts each of its six parts exactly once into the matching part, and a read, write or decryption failure is returned.",
 I,'all plaintexts, all paths, with and without an output path',
 'no test touches the cipher or the file helpers',
 ['src/lib.rs','src/parser/mod.rs'],[('KEY used as key and IV of AES-128-CBC/PKCS7 in both directions','src/lib.rs'),('from_encrypted / from_encrypted_wo_res','src/parser/mod.rs')])
p('C03','Each project part goes through its own parser and writer into its own slot',
 "Parsing a raw project parses each of the six texts with the parser of that part and stores the result in the slot of that part, and writing it back reconstructs each part into the text of the same part; a failure of a part is reported as the error of that part. The resource files are carried over in both directions and are absent exactly when they were absent.",
 I,'all raw projects and all parsed projects, with and without resource files',
 'no test parses or writes a whole project',
 ['src/parser/mod.rs'],[('SketchwareProject::{parse_from,parse,parse_wo_res}, RawSketchwareProject::{new,new_wo_res}','src/parser/mod.rs'),('TryInto<RawSketchwareProject> for SketchwareProject','src/parser/mod.rs')])
p('C04','Every section-structured file survives write-then-read unchanged',
 "For the file, library, resource, view and logic parts, and for each of the pools inside logic, reconstructing a parsed value and parsing the resulting text gives the same value back: every item comes back in the section it was in, in the same order, none is lost, duplicated or moved, also when some of the sections or pools are empty. Names are taken to be non-empty single-line identifiers without the delimiters the format itself uses; the spec of a moreblock is any single-line text.",
 I,'all collections of items of any length, every combination of empty and non-empty sections',
 'the tests reconstruct two or three fixed documents; empty sections and several screens are not among them',
 ['src/parser/file.rs','src/parser/library.rs','src/parser/resource.rs','src/parser/view.rs','src/parser/logic.rs'],
 [('section headers, line separators and blank-line framing of reconstruct() vs. parse()/parse_iter()','src/parser/*.rs')])
p('C05','The JSON records keep their on-disk keys and lose no field',
 "Every JSON record of a project (project metadata, file, library, resource, view, component, event and block items) is written and read under the same key for each of its fields, the keys being the ones Sketchware uses, no field is skipped while it holds a value, no two fields share a key, and a field is only optional on reading if it may be left out on writing; keys that are not known are passed over. Enumerations stored as numbers or names use the same code in both directions, the codes being the ones Sketchware uses, and a code that stands for nothing is rejected.",
 I,'every record type, every field, every enumeration value',
 'the tests parse a few sample records, most fields keep default values and most enumeration codes never appear',
 ['src/parser/project.rs','src/parser/file.rs','src/parser/library.rs','src/parser/resource.rs','src/parser/view.rs','src/parser/logic.rs'],
 [('serde derive attributes and repr discriminants','src/parser/*.rs')])
p('C06','Scalar encodings are inverse for every value',
 "Each scalar that is stored in a different form than it is held in memory - flags stored as 0/1 or \"true\"/\"false\", numbers stored as strings, the creation date, layout sizes, the activity option bits and the variable types - is read back to the value that was written, for every value of its type that the format can express; distinct values get distinct encodings, and text that is not an encoding is rejected with an error (any number other than zero counts as an on flag, and option bits beyond the four known ones are passed over).",
 I,'all values of each scalar type','the tests read at most one or two values of each encoding and never write the date',
 ['src/parser/serde_util.rs','src/parser/file.rs','src/parser/view.rs','src/parser/logic.rs'],
 [('with-modules bool_to_one_zero, bool_to_str, string_to_u16, date_to_timestamp, activity_options_parser; Serialize/Deserialize of Size; TryFrom<u8> for VariableType','src/parser')])
p('C07','Project-level data survives the trip through the API model',
 "Converting a parsed project into the API model and back keeps the metadata, the theme colors, the settings of every activity (name, orientation, theme, keyboard setting and the four option flags), the custom view names (their file entries carry no activity settings), and the data of every enabled library, each in its own field, and whether a library or the custom icon is enabled; a library switch that is neither on nor off is rejected for firebase, admob and google map.",
 I,'all projects','no test converts a whole project','src/api/mod.rs src/api/screen.rs'.split(),
 [('TryFrom<parser::SketchwareProject> for api::SketchwareProject and the From in the other direction','src/api/mod.rs'),('Screen::from_parsed','src/api/screen.rs')])
p('C08','View kinds and their attributes map back to the raw view they came from',
 "For every known view type number, interpreting a raw view and writing the interpretation back onto any raw view restores the type number and every attribute that the interpretation exposes to its own raw field, without touching unrelated attributes; unknown type numbers are reported as such and an image-bearing view without an image name is reported instead of being given one.",
 I,'all 18 known view kinds, all attribute values, and all unknown numbers','no test converts view kinds back','src/api/view.rs'.split(),
 [('ViewType::{from_view,get_type_id,apply_values_to_view}','src/api/view.rs')])
p('C09','Flattening a view tree keeps every view once with its parent and attributes',
 "Flattening a tree of views writes every view of the tree exactly once, with its parent's id and type number recorded as its parent (the root's for top-level views), with parents before their children and siblings in order, and with id, size, padding, margin, weights, gravity and background color written to their own fields, and the rest of the raw view kept. Building a tree attaches every raw view exactly once, in order, either to the top level or to the view named as its parent, and reports views whose parent is missing.",
 I,'all trees of any shape and size','one unit test flattens one fixed tree','src/api/view.rs src/api/mod.rs'.split(),
 [('flatten_views, parse_raw_layout, From<AndroidView> for View','src/api/view.rs')])
p('C10','Component kinds map back to the component they came from',
 "For every known component type number, interpreting a stored component and writing it back restores the id, the type number and the first parameter where the kind has one; different kinds get different numbers and unknown numbers are reported together with the component's id.",
 I,'all component type numbers 0..255, all ids and parameters','no test converts components','src/api/component.rs src/parser/logic.rs src/api/screen.rs'.split(),
 [('ComponentKind::{from_parser_component,into_parser_component}','src/api/component.rs')])
p('C11','Events and moreblocks keep their kind, target and code across conversion',
 "Writing an event and reading it back keeps its name, kind and target, unknown kinds are reported, and the code of every event and moreblock is stored under the very container name that reading looks it up by, so no code is attached to the wrong event or lost; the onCreate code of a screen is kept, its implicit event appears exactly once after reading and is not stored in the event list.",
 I,'all screens, events, moreblocks and names','no test converts a screen','src/api/screen.rs src/api/mod.rs'.split(),
 [('Event::get_block_container_id, EventType::{from_parser_event,apply_to_parser_event}, Screen::from_parsed','src/api/screen.rs'),('to_screen_logic','src/api/mod.rs')])
p('C12','Block type codes are inverse',
 "Every block type is written as a type code and a type name that are read back as the same block type, every code that can be read is written back as the same code and type name, and anything else is rejected.",
 I,'all block types, all codes','tests use three of the ten codes','src/api/block.rs'.split(),
 [('BlockType::{from,to_string,get_typename}, ListItem::from_str','src/api/block.rs')])
p('C13','Block categories and colors are inverse',
 "Every block category has a color of its own that is recognised as the same category again, at full opacity, and every color that belongs to no category is reported as unknown.",
 I,'all categories, all colors','no test covers categories','src/api/block.rs src/color.rs'.split(),
 [('Into<Color> for BlockCategory, TryFrom<Color> for BlockCategory','src/api/block.rs')])
p('C14','Writing blocks yields a well-linked block list, reading follows the links',
 "Writing a block sequence gives every block (also argument blocks and blocks of both substacks) an id of its own, increasing in the order of writing, and stores links - next block, substack heads, argument references - that name exactly the ids of the blocks they stand for, with -1 where there is none; no block is dropped. Reading starts at the first block, follows next links until -1, reads each substack from its head and each argument from its reference, and reports missing blocks and malformed ids.",
 I,'all block trees of any size and nesting','two tests cover one small tree each','src/api/block.rs'.split(),
 [('to_block_container, convert_block, process_content','src/api/block.rs'),('TryFrom<BlockContainer> for Blocks: parse_block, parse_blocks','src/api/block.rs')])
p('C15','Spec parameters and arguments are matched one to one, alike in every reader',
 "Parsing a block spec turns every word into exactly one item, in order: a parameter of the kind named by its marker (with its name) or a text; every parameter takes exactly one argument, in order, a reference argument is read as a reference for every kind of parameter, and running out of arguments or an argument of the wrong kind is reported. The one-step and the two-step readers agree, taking the arguments out yields them all in order and leaves the names, and writing the spec gives back every word with its marker and name.",
 I,'all specs and argument lists','tests parse four fixed specs','src/api/block.rs'.split(),
 [('BlockContent::{parse,parse_wo_params,apply_args,apply_blocks,take_args,to_string}','src/api/block.rs')])
p('C16','The resource registry keeps ids unique and typed',
 "Adding a resource under an id that any image, sound or font already uses is refused and changes nothing, as is adding a file that does not exist; otherwise the resource is stored under exactly that id and kind, with the kind also recorded on the file. Looking up or removing an id finds the resource with its kind wherever it is stored, and removing takes it out of that collection only.",
 ['inputs','histories'],'all registries, ids, files and kinds','no test uses the registry','src/api/mod.rs'.split(),
 [('Resources::{get_resource,remove_resource,put_resource}','src/api/mod.rs')])
p('C17','Resource files are sorted by kind and matched to the resources that use them',
 "Resource files given for a project are put into the collection of their kind (from the folder of a real file, or the declared kind), under their own file name, or become the custom icon, and a missing file or an unknown folder is reported; writing them out lists every one of them. Converting to the API model gives each listed resource the file with its full name of its own kind (or reports it missing, or creates a generated file of that name and kind when no files were given), and converting back lists it under the same name and full name with its file, exactly when files were given.",
 I,'all resource lists and file lists','no test passes resource files','src/parser/mod.rs src/api/mod.rs'.split(),
 [('TryFrom<Vec<ResourceFileWrapper>> for ResourceFiles, Into<Vec<..>>','src/parser/mod.rs'),('resources_conv!/resource_conv!','src/api/mod.rs')])
p('C18','No error is swallowed on the way out',
 "Whenever parsing, reconstructing, decrypting or converting an item of a project fails, the whole operation fails with an error that carries that failure (or the documented error for it); no failing item is skipped, replaced by a default or turned into success.",
 ['inputs','fault_sequences'],'every fallible call inside the library, every failure of it','tests check a handful of success paths only','src/parser src/api src/lib.rs'.split(),
 [('? and map_err at every fallible call','src/**')])
p('C19','Colors keep their four channels',
 "A color built from channels, a number or a hex string returns exactly those channels, six-digit hex strings and RGB colors being fully opaque and any other hex string being the number it denotes; a stored color reads back with the same 32 bits however the number is written in JSON (negative, unsigned or floating point), and printing shows all eight hex digits.",
 I,'all 2^32 colors and all 24/32-bit hex strings','tests check a few sample colors','src/color.rs'.split(),
 [('Color::{parse_hex,from_rgb,from_argb,alpha,red,green,blue}, Serialize/Deserialize','src/color.rs')])
p('C20','Output is deterministic and keeps the user\'s order',
 "Writing the same project twice gives the same six texts: items, pools, screens, layouts, events and blocks are written in the order they are held, no text depends on hash-map iteration order, the clock, the environment or randomness (the order of the returned resource file list excepted).",
 ['inputs','histories'],'all projects, all runs','a test sees one run and one hash seed','src/parser src/api'.split(),
 [('LinkedHashMap and Vec for everything that reaches a text','src/**')])
p('C21','The library has no effects beyond the files it is handed',
 "The library only reads the files passed to its decrypt/encrypt helpers, only writes the output file of the encrypt-to-file helper, only tests the existence of resource files given by path, and only uses randomness to generate missing resource file ids; parsing, reconstructing and converting do no other I/O, start no process or thread, print nothing and keep no global state.",
 ['inputs','histories'],'every public entry point','effects are invisible to the assertions of unit tests','src/**'.split(),
 [('std::fs::{read,write} in src/lib.rs only; Path::exists in two functions; rand::random in one','src/lib.rs, src/parser/mod.rs, src/api/mod.rs')])
p('C22','Converting cyclic or shared block links terminates',
 "Reading a block list whose next, substack or argument links form a cycle or share a block ends with an error instead of running forever: a block is used up when it is read, so it can never be read twice.",
 I,'all link graphs, including cycles','no test has a cyclic list','src/api/block.rs'.split(),
 [('blocks.remove(&id) before any recursion','src/api/block.rs')])
p('C23','Derived activity names follow the Sketchware rule',
 "The java name that a layout name is looked up under is the layout name with underscores removed, each word capitalised and 'Activity' appended, for every layout name; the same rule is used for finding a screen's code and for naming a screen that has none.",
 I,'all layout names','one test samples three names','src/api/mod.rs'.split(),[('view_name_to_logic','src/api/mod.rs')])
p('C24','Whole-project byte fidelity for files written by Sketchware',
 "Parsing the six files of a project that Sketchware wrote and writing them back gives byte-for-byte the same files.",
 I,'all project files that Sketchware can write','needs real projects','src/**'.split(),[('all parsers and writers','src/**')])
p('C25','Numbers keep their exact decimal text',
 "Number arguments and fractional view attributes that are read and written back keep their decimal text (1.0 stays 1.0, 10 stays 10).",
 I,'all decimal texts','needs unboundedly many numbers','src/api/block.rs src/parser/view.rs'.split(),[('f64/f32 parsing and formatting','src/api/block.rs, src/parser/view.rs')])
p('C26','Nesting depth does not exhaust the stack',
 "Converting block containers and view trees of any nesting depth that fits in memory completes without exhausting the stack.",
 I,'all nesting depths','needs very deep inputs','src/api/block.rs src/api/view.rs'.split(),[('recursion in parse_block(s), find_id, flatten_views','src/api')])
p('C27','An error names the item that failed',
 "When reading, writing or converting fails, the error names the item at fault and not another: the content it reports is the text of the item that could not be read, counts are those of that item, screen, container, library, section, view, block, component, event, moreblock, custom view and resource names are those of the item, the value is the one that was rejected; the message of an error shows these, and its source is the error it was caused by. (The line numbers of code sections and libraries are not claimed.)",
 I,'every item of every section and every kind of fault','tests assert success or failure, not what the error says','src/**'.split(),
 [('map_err(...) of every reader, writer and conversion; #[error(...)] of the error types','src/**')])
p('C28','New values hold what they are given, and defaults are Sketchware\'s',
 "Constructors put every argument in the field of the same name and nothing else: a new screen, pool, resource registry, block list or project starts empty; a new view has the given id, type and parent and Sketchware's default attributes, text, image and layout settings; a new block has the color of its category, the given substacks and the control type that goes with their number; the content builder keeps the given items in order and its arguments can be changed in place; the default palette is Sketchware's. A gravity answers a flag as set exactly when all bits of that flag are set.",
 I,'all arguments; all 256 gravity values','tests use constructors with a few values and look at few fields','src/parser/view.rs src/parser/logic.rs src/parser/project.rs src/api/block.rs src/api/mod.rs'.split(),
 [('AndroidView::new_empty, Component::new*, Block::new*, BlockContentBuilder, Gravity, Default impls','src/parser/view.rs, src/parser/logic.rs, src/api/block.rs, src/api/mod.rs')])
p('C29','Equal values are equal in every part, and a clone is equal to its original',
 "Two values of a model type compare equal exactly when all their fields are equal (texts byte for byte, lists item by item in order), whichever way round they are compared; a clone holds the same value in every field; values that are equal hash alike. So resource ids, file names, views, blocks and projects are told apart whenever they differ in anything.",
 I,'all pairs of values of all model types','assertions in tests use the very equality in question','src/**'.split(),
 [('derive(Clone, PartialEq, Eq, Hash) of the model types','src/**')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
