import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
S='src/v8unpack/'
p('C01','Every container entry that extraction takes is written back by build',
 "For every metadata object type, each auxiliary entry of the container that belongs to an object (module, help page, predefined data, picture, template body, form body, route map, exchange-plan content, subsystem content, ...) and that extraction takes over into the sources is written back by a build of those unchanged sources under the same entry name. This holds whatever combination of the object's optional entries is present, including entries that are present but empty. No entry is written back only on condition that some other, optional source file exists.",
 ['inputs','programs'],'all metadata classes and template/form kinds x all combinations of present/absent optional entries',
 'The stable tests run the object-level encode stage for none of the classes (encode stage 3 is not in the stable set) and the sample binaries contain only a dozen of the ~95 classes; the property ranges over every class and every presence combination.',
 [S+'MetaObject/__init__.py',S+'MetaDataObject/__init__.py',S+'MetaDataObject/core/Container.py',S+'MetaDataObject/core/SimpleWithInfo.py',S+'MetaDataObject/Template.py',S+'MetaDataObject/CommonPicture.py',S+'MetaDataObject/Form/FormCore.py',S+'MetaObject/Configuration.py'],
 [('decode_object/encode_object pairs','MetaDataObject/**'),('_decode_*/_encode_* helper pairs','MetaObject/__init__.py'),('code slots ext_code','every class')],
 observe_at=['files written to the encode stage directory'],hook_needed=None)
p('C02','What extraction cuts out of a property tree, build puts back in the same place',
 "Every value that extraction replaces by a placeholder in an object's property tree (identifiers, manager identifiers, compatibility version, embedded binary data, form module text, child lists, owner references) is put back by build into the same position with the same value before the tree is written to the container. No placeholder text ever reaches the built file, and with no options given nothing else in the tree is altered.",
 ['inputs','programs'],'all metadata classes x all decode paths through the class',
 'Needs every class and every branch of the decode path; tests compare a few sample trees and only up to stages that do not include object encoding.',
 [S+'helper.py',S+'MetaDataObject/__init__.py',S+'MetaDataObject/DataProcessor.py',S+'MetaObject/Configuration.py',S+'MetaObject/ConfigurationExtension.py',S+'MetaDataObject/Form/FormCore.py',S+'MetaDataObject/CommonPicture.py'],
 [('decode_header/encode_header','helper.py'),('decode_ids/encode_ids','MetaDataObject/__init__.py, DataProcessor.py'),('getset_form_code','Form/FormCore.py'),('_extract_b64_data/_encode_html_data','MetaObject/__init__.py')])
p('C03','The versions table lists exactly the entries that were written',
 "When a configuration or an external processor/report is built, every entry written into the container is listed once in its versions table, and nothing is listed that was not written. This holds for every object type and every combination of optional artefacts. The stated record count agrees with the number of listed records.",
 ['inputs','programs'],'all metadata classes x all encode paths (artefact present/absent, fallback branches)',
 'Object encoding is outside the stable tests, and a listing that lacks one entry is still a well-formed file; the platform rejects it only when that entry is needed.',
 [S+'MetaObject/__init__.py',S+'MetaDataObject/__init__.py',S+'MetaObject/Configuration.py',S+'MetaObject/ExternalDataProcessor.py',S+'helper.py',S+'decoder.py'],
 [('file_list','MetaObject/__init__.py and every write site'),('encode_versions','MetaObject/__init__.py'),('file_list aggregation','helper.run_in_pool_encode_include, Decoder.encode')])
p('C04','Text is re-encoded with the code page it was decoded with',
 "A module or text artefact that extraction decoded from one code page is written by build in that same code page, and every intermediate text file is read with a code page that accepts what the other side writes. A module that cannot be decoded as text (protected or binary) is kept as bytes on every path in both directions and goes back into the entry it came from.",
 ['inputs','programs'],'all write/read site pairs of text artefacts x all code pages chosen at run time (utf-8, utf-8 with mark, windows-1251, binary)',
 'The samples contain UTF-8 modules only, so a codec confusion on another branch is never executed.',
 [S+'MetaObject/__init__.py',S+'MetaDataObject/Form/FormCore.py',S+'MetaDataObject/Template.py',S+'helper.py',S+'organizer_code.py'],
 [('read_raw_code/write_raw_code','MetaObject/__init__.py'),('code_encoding_* header field','MetaObject/__init__.py'),('txt_read/txt_write/brace_file_*','helper.py')])
p('C05','Two artefacts of one object never share a source file name',
 "Within the source folder of one object no two different artefacts (properties, identifiers, module, help, picture, template body, elements) are ever written under the same file name, whatever the object's comment or type is. A user-controlled file extension can therefore never make binary data overwrite, or be mistaken for, the object's own property, identifier, element or module files.",
 ['inputs'],'all metadata classes x all comment-derived extensions',
 'Depends on free text (the last word of a comment) for which tests sample a handful of values without looking at collisions.',
 [S+'helper.py',S+'MetaDataObject/Template.py',S+'MetaDataObject/CommonPicture.py',S+'MetaDataObject/__init__.py'],
 [('get_extension_from_comment','helper.py'),('artefact names','every decode_object')])
p('C06','Container writer and reader agree on one layout',
 "For both container formats the writer and the reader use the same layout: structure sizes match their formats, numbers are written with the digit count the reader expects, the end-of-chain and terminator values are the same, chained table blocks point at the place the next block is really written, and every stored offset is relative to the start of its own container. A container appended after another one never overwrites bytes of the first, and the reader looks for the next container where the one before it ends.",
 ['inputs','configurations'],'both formats x container base offsets x table sizes (one block, several blocks)',
 'Stable tests build only single-container files with small tables, so second-container offsets and multi-block tables are never exercised.',
 [S+'container.py',S+'container_doc.py',S+'container_writer.py',S+'container_reader.py'],
 [('Container/Container64 constants','container.py'),('write_block/read_block','container_doc.py'),('write_table_off_content/read_files','container.py')])
p('C07','A missing optional value is checked before it is used',
 "No result that may be absent (an unreadable block, a missing table entry, a lookup that found nothing) is used on any path before its absence has been checked. In particular a container entry without stored data extracts as an empty entry instead of aborting the extraction, and file-name helpers always return a name.",
 ['inputs'],'all functions that return "nothing" on some path x all their call sites',
 'The absent case does not occur in the sample binaries or directory listings.',
 [S+'container_doc.py',S+'helper.py',S+'MetaObject/__init__.py',S+'organizer_file_ce.py',S+'index.py'],
 [('read_block returning None','container_doc.py'),('remove_descent_from_filename','helper.py')])
p('C08','Every recognised metadata type is fully and correctly served',
 "Every type identifier the tool recognises is the platform's identifier for that type, is unique, and leads to handlers for both directions: a class for every metadata type that can occur as a child, a reader and a writer for every template kind, a class for every form version and form element kind. For every type the positions it reads (property header, module, help and predefined-data slots) are the platform's.",
 ['programs','inputs'],'all members of every type enumeration and dispatch table',
 'Tests cover only the types present in five small sample files; an identifier or slot of any other type can change unnoticed.',
 [S+'metadata_types.py',S+'decoder.py',S+'MetaDataObject/Template.py',S+'MetaDataObject/Form/__init__.py',S+'MetaDataObject/Form/FormElements4/FormElement.py',S+'MetaDataObject/Form/FormElements27/FormElement.py'],
 [('MetaDataTypes/MetaDataGroup','metadata_types.py'),('available_types','decoder.py'),('TmplType dispatch','MetaDataObject/Template.py'),('FormItemTypes','Form/FormElements*/FormElement.py')])
p('C09','A failure anywhere makes the whole operation fail visibly',
 "If any step of extraction or building fails - in the main process or in a worker - the operation raises its error to the caller and the command line exits with a non-zero status; no failure is swallowed. The only conditions absorbed silently are the absence of an optional artefact and the documented fallbacks, and every worker result is awaited.",
 ['fault_sequences','schedules'],'all exception handlers and worker calls reachable from the public operations',
 'Tests inject no failures.',
 [S+'v8unpack.py',S+'helper.py',S+'decoder.py',S+'organizer_file.py',S+'organizer_code.py',S+'organizer_form_elem.py',S+'container_reader.py',S+'ext_exception.py',S+'__main__.py',S+'__init__.py'],
 [('run_in_pool','helper.py'),('try/except in extract/build/main','v8unpack.py')])
p('C10','An operation that returns normally has run every stage and produced its result',
 "Extraction and building return normally only after every stage has run, in order, each on the output of the previous one, and the result has been put at the requested place; there is no path that returns success without doing the work. When a file holds a stub container before the real one, the object is taken from the last container, the stub is kept among the sources, and building puts both back in the same order. The compatibility of the sources' version is checked before any property of the root object is written, and the output binary is opened only after all earlier stages have succeeded.",
 ['inputs','configurations','fault_sequences'],'all normal-return paths of the public operations and of each root encoder',
 'Tests call the stages one by one and never the complete operations with all option combinations.',
 [S+'v8unpack.py',S+'decoder.py',S+'container_writer.py',S+'MetaObject/Configuration.py',S+'MetaObject/ConfigurationExtension.py',S+'MetaObject/ExternalDataProcessor.py'],
 [('extract/build stage chain','v8unpack.py'),('check_version','helper.py and root encoders')])
p('C11','Building never touches the sources; extraction never touches its input',
 "Building creates, changes or deletes nothing below the source folder or the shared folders: its only effects are in the temporary folder and on the requested output file. Extraction never changes the input file, deletes only what lies below the output or temporary folder, and in version-inheritance mode deletes nothing that already exists in the output folder.",
 ['inputs','configurations'],'all file-system effects reachable from the public operations x option combinations',
 'Tests look at the produced files, not at what else was created or removed.',
 [S+'v8unpack.py',S+'organizer_file.py',S+'organizer_file_ce.py',S+'helper.py',S+'container_writer.py',S+'container_reader.py',S+'decoder.py'],
 [('clear_dir/makedirs/open call sites','all modules')])
p('C12','Names found in a binary cannot make extraction write outside its folder',
 "No entry name or object name taken from the binary being extracted can make a file be created outside the folder the extraction works in: every such name is validated before it becomes part of a path that is written.",
 ['inputs'],'all write paths whose components come from the input file',
 'Needs hostile inputs; the samples are well-formed files.',
 [S+'container.py',S+'helper.py',S+'MetaDataObject/__init__.py',S+'container_reader.py'],
 [('extract_file','container.py'),('set_write_decode_mode','MetaDataObject/__init__.py')])
p('C13','Version inheritance uses no newer version and never overwrites another one',
 "In version-inheritance mode every source file a build takes is either the unversioned file or a variant whose version number is not greater than the requested one, and a name is only matched against variants of exactly the same base name and extension. Extraction in this mode writes a changed file only under the requested version's name and skips it only if its content equals the nearest variant; files outside the source folder are never versioned.",
 ['inputs','configurations','histories'],'all directory contents x requested versions',
 'The two tests of this mode use a fixed handful of names.',
 [S+'helper.py',S+'organizer_file_ce.py',S+'organizer_file.py',S+'organizer_code.py',S+'organizer_form_elem.py'],
 [('get_near_descent_file_name/get_descent_file_name','helper.py'),('unpack_get_descent_filename/pack_get_descent_filename','organizer_file_ce.py')])
p('C14','The result does not depend on directory order or worker scheduling',
 "Neither the order in which the operating system lists a directory nor the order in which workers finish influences what is produced: which container is taken as the main one, the order of entries in a built container, the order of child objects in a property tree, and which source file is chosen are all determined by names and stored data.",
 ['schedules','inputs'],'all uses of directory listings and of unordered worker results',
 'A test run sees one listing order and a few schedules.',
 [S+'decoder.py',S+'container.py',S+'container_writer.py',S+'helper.py',S+'MetaObject/__init__.py'],
 [('sorted listings','container.py, container_writer.py, MetaObject/__init__.py'),('imap_unordered consumers','helper.py')])
p('C15','Objects and runs are processed independently of each other',
 "Processing one object or running one operation leaves nothing behind that changes the result of the next: no class-level or module-level state is modified by processing, no default argument value is shared between calls, and the options passed in by a caller are not modified.",
 ['histories','schedules'],'all writes to shared state reachable from processing x sequences of operations in one process',
 'Each test processes one sample in a fresh object; the distribution of objects over worker processes varies with the machine.',
 [S+'v8unpack.py',S+'decoder.py',S+'helper.py',S+'MetaObject/__init__.py',S+'MetaDataObject/**',S+'json_container_decoder.py'],
 [('instance attributes set in __init__','all classes'),('options handling','v8unpack.py, decoder.py')])
p('C16','Splitting code into area files and joining it back loses no line',
 "When a module is split, every line goes to exactly one area, once and in order, and region nesting is tracked so that the enclosing area continues after an included one ends; when it is joined, every line of the module and of each included file is taken exactly once. Both directions recognise the same area markers and resolve an area name to the same file, and an area marked read-only is included by build but never written by extraction.",
 ['inputs'],'all module texts and area nestings; all paths through the line loops',
 'The samples contain few areas and no nested or mixed ones.',
 [S+'organizer_code.py',S+'organizer_file.py',S+'organizer_form_elem.py'],
 [('OrganizerCode.unpack/pack_file','organizer_code.py'),('is_area/parse_include_path','organizer_code.py, organizer_form_elem.py')])
p('C17','A form that cannot be parsed is kept intact',
 "If the elements of a form cannot be taken apart, the complete form body as it was before the attempt goes into the sources and back into the binary; a partly modified body is never stored. Parsing failures below the form level are not hidden in a way that bypasses this fallback.",
 ['inputs','fault_sequences'],'all failure points inside form element parsing',
 'Needs forms with unsupported elements at chosen places.',
 [S+'MetaDataObject/Form/FormCore.py',S+'MetaDataObject/Form/FormElements4/FormElement.py',S+'MetaDataObject/Form/FormElements27/FormElements27.py'],
 [('backup/restore','Form/FormCore.py decode_includes')])
p('C18','Every option given by the user takes effect',
 "Every option the command line accepts and every documented field of the batch product file reaches the operation it belongs to, in the extraction and in the build mode alike, under its own meaning. No option is accepted and then ignored or handed over as a different one.",
 ['configurations'],'all declared options and product fields x all modes',
 'No test runs the command line.',
 [S+'v8unpack.py',S+'decoder.py',S+'MetaObject/__init__.py',S+'index.py'],
 [('argparse declarations and calls','v8unpack.py main'),('build_all/extract_all/update_index_all','v8unpack.py')])
p('C19','Temporary data, worker pools and files are released on every exit',
 "Whatever way an operation ends - normally or by an error - the temporary folder it created itself is removed, a temporary folder given by the user is kept, worker pools it started are shut down, and every opened file is closed. No file is used after it has been closed.",
 ['fault_sequences'],'all exits of the operations and of every scope that acquires a resource',
 'Tests inject no failures and do not look for leftovers.',
 [S+'v8unpack.py',S+'helper.py',S+'container.py',S+'container_writer.py',S+'container_reader.py'],
 [('mkdtemp/rmtree, get_pool/close_pool','v8unpack.py, helper.py'),('with blocks','all modules')])
p('C20','Shared-folder mapping is the same in both directions',
 "A file that the index maps to a shared folder is written there by extraction and read from exactly there by build, for ordinary files, modules, code areas and form elements, with and without version inheritance. Files not mentioned in the index stay at their own place in the source folder, and a mapped file takes precedence over one of the same name in the source folder.",
 ['inputs','configurations'],'all index shapes x artefact kinds x inheritance on/off',
 'Tests use no index that maps all artefact kinds in both directions.',
 [S+'index.py',S+'organizer_file.py',S+'organizer_code.py',S+'organizer_form_elem.py'],
 [('get_dest_path','index.py'),('_pack_index_elem','organizer_file.py'),('parse_include_path','organizer_code.py')])
p('C21','Child objects return to their parent on build',
 "Every child whose description extraction moves out of its parent's property tree is put back by build at the same place; with a dynamically built table of contents each child type is rebuilt from the child objects found, ordered by name, with the matching type identifier and count. A parent whose children are all gone gets an empty list, never a leftover marker.",
 ['inputs','configurations'],'all parent classes x child kinds x table-of-contents mode',
 'Object encoding is not in the stable tests; removed children are never tried.',
 [S+'MetaObject/__init__.py',S+'MetaObject/Configuration.py',S+'MetaDataObject/__init__.py',S+'helper.py',S+'decoder.py'],
 [('decode_include/fill_header_include','MetaObject/__init__.py'),('include_index aggregation','helper.run_in_pool_encode_include, Decoder.encode')])
p('C22','The property-text parser has no undefined state and never truncates silently',
 "In every state the parser can be in, the next line or character is handled by a defined rule, and a text that ends in the middle of a value or a list is reported as an error instead of being returned as a shorter tree. Every kind of value the parser can produce is accepted by the writer.",
 ['inputs'],'all parser states x all next inputs',
 'Tests parse a fixed list of example files.',
 [S+'json_container_decoder.py'],
 [('Mode and _decode_line_* dispatch','json_container_decoder.py'),('decode_file end check','json_container_decoder.py'),('encode_object','json_container_decoder.py')])
p('C23','The name prefix is applied and removed symmetrically',
 "With a prefix given, extraction removes it from the names of exactly those objects to which build adds it - own objects of the top level - and from no others, so that building the extracted sources with the same prefix gives every object its original name. Without a prefix no name is altered.",
 ['inputs','configurations'],'all objects (own/adopted, top level/nested) x prefixes',
 'No test uses a prefix.',
 [S+'helper.py',S+'MetaDataObject/__init__.py',S+'MetaObject/ConfigurationExtension.py'],
 [('decode_header/encode_header','helper.py')])
p('C24','Form element lists are reassembled as they were taken apart',
 "For every form element kind and every list of a form (elements, attributes, parameters, commands, columns, pages) build finds the list at the same place, with the same grouping of type and data, as extraction removed it from, and looks every element up under the key extraction stored it under.",
 ['inputs','programs'],'all form element classes and list kinds of both form families',
 'Form encoding is not in the stable tests.',
 [S+'MetaDataObject/Form/FormElements4/FormElement.py',S+'MetaDataObject/Form/FormElements4/Group.py',S+'MetaDataObject/Form/FormElements4/Table.py',S+'MetaDataObject/Form/FormElements27/Panel.py',S+'MetaDataObject/Form/FormElements27/FormElement.py'],
 [('decode_list/encode_list, decode_pages/encode_pages','Form/FormElements*/')])
# honest not-applicable
p('C30','Extracting and rebuilding a binary gives a byte-identical property text',
 "Building freshly extracted, unchanged sources gives entries whose text equals the original text byte for byte (apart from regenerated version identifiers).",
 ['inputs'],'all valid binaries','A handful of samples cannot stand for all binaries.',
 [S+'json_container_decoder.py'],[('decode_file/encode_root_object','json_container_decoder.py')])
p('C31','The chosen variant is the greatest version not above the requested one',
 "Among several admissible variants of a file the build takes the one with the greatest version number.",
 ['inputs'],'all sets of variants','Fixed handful of variants in tests.',
 [S+'helper.py'],[('get_near_descent_file_name','helper.py')])
p('C32','Line endings inside modules and string values are preserved',
 "Carriage returns and line feeds inside module text and multi-line string values survive extraction and building unchanged.",
 ['inputs','configurations'],'all texts, all platforms','Depends on platform newline translation of text streams.',
 [S+'helper.py',S+'json_container_decoder.py'],[('open in text mode','helper.py')])
p('C33','Compressed entries are inflated completely',
 "For every compressed entry extraction writes the complete uncompressed data, whatever its size and chunking.",
 ['inputs'],'all deflate streams and chunk boundaries','Sample streams only.',
 [S+'container_reader.py',S+'container_doc.py'],[('decompressobj loops','container_reader.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
